//! A share of the string types under test (the shares compile in parallel).
#[cfg(not(feature = "all"))]
dstcore::kinds!(; 3, 11, 24, 64, 160, 253);
#[cfg(feature = "all")]
dstcore::kinds!(; 3, 11, 22, 24, 35, 43, 53, 64, 66, 74, 82, 90, 101, 109, 117, 125, 136, 144, 152, 160, 161, 169, 177, 185, 196, 204, 212, 220, 230, 238, 247, 253);
dstcore::wire_kinds!(; 3, 64);
