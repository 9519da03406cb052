//! A share of the string types under test (the shares compile in parallel).
#[cfg(not(feature = "all"))]
dstcore::kinds!(; 5, 13, 32, 95, 192, 255);
#[cfg(feature = "all")]
dstcore::kinds!(; 5, 13, 26, 32, 37, 45, 55, 68, 76, 84, 92, 95, 103, 111, 119, 130, 138, 146, 154, 163, 171, 179, 187, 192, 198, 206, 214, 222, 232, 241, 249, 255);
dstcore::wire_kinds!(; 5, 255);
