//! A share of the string types under test (the shares compile in parallel).
#[cfg(not(feature = "all"))]
dstcore::kinds!(CacheString; 7, 16, 47, 63, 100, 223);
#[cfg(feature = "all")]
dstcore::kinds!(CacheString; 7, 14, 16, 28, 39, 47, 49, 57, 63, 70, 78, 86, 94, 100, 105, 113, 121, 132, 140, 148, 156, 165, 173, 181, 189, 200, 208, 216, 223, 226, 234, 243, 251);
dstcore::wire_kinds!(CacheString; 63);
