//! A share of the string types under test (the shares compile in parallel).
#[cfg(not(feature = "all"))]
dstcore::kinds!(; 1, 9, 20, 61, 128, 240);
#[cfg(feature = "all")]
dstcore::kinds!(; 1, 9, 19, 20, 30, 41, 51, 59, 61, 72, 80, 88, 98, 107, 115, 123, 128, 134, 142, 150, 158, 167, 175, 183, 194, 202, 210, 218, 228, 236, 240, 245);
dstcore::wire_kinds!(; 1, 20);
