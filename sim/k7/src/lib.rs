//! A share of the string types under test (the shares compile in parallel).
#[cfg(not(feature = "all"))]
dstcore::kinds!(; 6, 15, 33, 96, 193);
#[cfg(feature = "all")]
dstcore::kinds!(; 6, 15, 27, 33, 38, 46, 56, 69, 77, 85, 93, 96, 104, 112, 120, 131, 139, 147, 155, 164, 172, 180, 188, 193, 199, 207, 215, 225, 233, 242, 250);
dstcore::wire_kinds!(; 15, 33);
