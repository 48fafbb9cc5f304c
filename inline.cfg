core::
alloc::
std::
uuid::
glam::
!core::fmt
!std::fmt
!core::panicking
!std::collections
!alloc::collections
