// only builds speedy for the witnesses (spec/witness.py)
