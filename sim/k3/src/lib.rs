//! A share of the string types under test (the shares compile in parallel).
#[cfg(not(feature = "all"))]
dstcore::kinds!(; 2, 10, 23, 62, 129, 252);
#[cfg(feature = "all")]
dstcore::kinds!(; 2, 10, 21, 23, 34, 42, 52, 60, 62, 73, 81, 89, 99, 108, 116, 124, 129, 135, 143, 151, 159, 168, 176, 184, 195, 203, 211, 219, 229, 237, 246, 252);
dstcore::wire_kinds!(; 2, 23);
