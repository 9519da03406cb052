//! A share of the string types under test (the shares compile in parallel).
#[cfg(not(feature = "all"))]
dstcore::kinds!(; 4, 12, 31, 65, 191, 254);
#[cfg(feature = "all")]
dstcore::kinds!(; 4, 12, 25, 31, 36, 44, 54, 65, 67, 75, 83, 91, 102, 110, 118, 126, 137, 145, 153, 162, 170, 178, 186, 191, 197, 205, 213, 221, 231, 239, 248, 254);
dstcore::wire_kinds!(; 4, 254);
