{2147483648ULL, "f0bf53876150cab4b366e9f3480d5c1a71e45a64ef9b7c9bdc150f1699d41fe8"},
{4294967295ULL, "a16b595df40bcf1774208af7334394d04cf432ba7d774f3509170640f6551859"},
{4294967425ULL, "42f97f8ec4ec92c0b4cd2c85f38bf504951fd551906d1b827ae27f8e6fe7e477"},
