//! A share of the string types under test (the shares compile in parallel).
#[cfg(not(feature = "all"))]
dstcore::kinds!(; 8, 17, 48, 127, 224);
#[cfg(feature = "all")]
dstcore::kinds!(; 8, 17, 18, 29, 40, 48, 50, 58, 71, 79, 87, 97, 106, 114, 122, 127, 133, 141, 149, 157, 166, 174, 182, 190, 201, 209, 217, 224, 227, 235, 244);
dstcore::wire_kinds!(; 8, 127);
