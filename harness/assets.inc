{"IndexHtml", "br", 69, 0xd8636aeb73cced21ull},
{"WebFrontIco", "br", 528, 0xaf300a9fecf5b33eull},
{"WebFrontJs", "gzip", 3501, 0x94cddbbcdf8f2343ull},
{"Babel", "br", 398150, 0x60b45032b81d07b7ull},
{"React", "br", 3761, 0xea9caa13782edc11ull},
{"ReactDom", "br", 37235, 0x8e0b87932d50e589ull},
{"Boot0", "br", 990, 0x12b4f86ce0cced4eull},
{"Boot1", "br", 1475, 0x59401573445bb9dfull},
{"JasmineCss", "br", 6409, 0xc95151709949124full},
{"JasmineJs", "br", 50056, 0xf5ecfa372bfdad9full},
{"JasmineFavicon", "br", 1162, 0xd61e8c92a6e2bdf0ull},
{"JasmineHtml", "br", 5166, 0x9d81d77d7c53083dull},
