// written once by hand from the list of expressions: every single, pair and selected triple of them
{ [] { CE_LOG(note, a); }, 1, 0, { "a" }, { "5" } },
{ [] { CE_LOG(note, f(1, 2)); }, 1, 0, { "f(1, 2)" }, { "3" } },
{ [] { CE_LOG(note, "x,y"); }, 1, 0, { "\"x,y\"" }, { "x,y" } },
{ [] { CE_LOG(note, ','); }, 1, 0, { "','" }, { "," } },
{ [] { CE_LOG(note, hit()); }, 1, 1, { "hit()" }, { "7" } },
{ [] { CE_LOG(note, (a, b)); }, 1, 0, { "(a, b)" }, { "6" } },
{ [] { CE_LOG(note, arr[f(1, 1)]); }, 1, 0, { "arr[f(1, 1)]" }, { "30" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y); }, 1, 0, { "P{ 1, 2 }.y" }, { "2" } },
{ [] { CE_LOG(note, "\")"); }, 1, 0, { "\"\\\")\"" }, { "\")" } },
{ [] { CE_LOG(note, '\''); }, 1, 0, { "'\\''" }, { "'" } },
{ [] { CE_LOG(note, "("); }, 1, 0, { "\"(\"" }, { "(" } },
{ [] { CE_LOG(note, '"'); }, 1, 0, { "'\"'" }, { "\"" } },
{ [] { CE_LOG(note, a < b); }, 1, 0, { "a < b" }, { "#<T>" } },
{ [] { CE_LOG(note, "\\"); }, 1, 0, { "\"\\\\\"" }, { "\\" } },
{ [] { CE_LOG(note, sum({ f(1, 1), 2 })); }, 1, 0, { "sum({ f(1, 1), 2 })" }, { "4" } },
{ [] { CE_LOG(note, (void(0), char(64))); }, 1, 0, { "(void(0), char(64))" }, { "@" } },
{ [] { CE_LOG(note, a, a); }, 2, 0, { "a", "a" }, { "5", "5" } },
{ [] { CE_LOG(note, a, f(1, 2)); }, 2, 0, { "a", "f(1, 2)" }, { "5", "3" } },
{ [] { CE_LOG(note, a, "x,y"); }, 2, 0, { "a", "\"x,y\"" }, { "5", "x,y" } },
{ [] { CE_LOG(note, a, ','); }, 2, 0, { "a", "','" }, { "5", "," } },
{ [] { CE_LOG(note, a, hit()); }, 2, 1, { "a", "hit()" }, { "5", "7" } },
{ [] { CE_LOG(note, a, (a, b)); }, 2, 0, { "a", "(a, b)" }, { "5", "6" } },
{ [] { CE_LOG(note, a, arr[f(1, 1)]); }, 2, 0, { "a", "arr[f(1, 1)]" }, { "5", "30" } },
{ [] { CE_LOG(note, a, P{ 1, 2 }.y); }, 2, 0, { "a", "P{ 1, 2 }.y" }, { "5", "2" } },
{ [] { CE_LOG(note, a, "\")"); }, 2, 0, { "a", "\"\\\")\"" }, { "5", "\")" } },
{ [] { CE_LOG(note, a, '\''); }, 2, 0, { "a", "'\\''" }, { "5", "'" } },
{ [] { CE_LOG(note, a, "("); }, 2, 0, { "a", "\"(\"" }, { "5", "(" } },
{ [] { CE_LOG(note, a, '"'); }, 2, 0, { "a", "'\"'" }, { "5", "\"" } },
{ [] { CE_LOG(note, a, a < b); }, 2, 0, { "a", "a < b" }, { "5", "#<T>" } },
{ [] { CE_LOG(note, a, "\\"); }, 2, 0, { "a", "\"\\\\\"" }, { "5", "\\" } },
{ [] { CE_LOG(note, a, sum({ f(1, 1), 2 })); }, 2, 0, { "a", "sum({ f(1, 1), 2 })" }, { "5", "4" } },
{ [] { CE_LOG(note, a, (void(0), char(64))); }, 2, 0, { "a", "(void(0), char(64))" }, { "5", "@" } },
{ [] { CE_LOG(note, f(1, 2), a); }, 2, 0, { "f(1, 2)", "a" }, { "3", "5" } },
{ [] { CE_LOG(note, f(1, 2), f(1, 2)); }, 2, 0, { "f(1, 2)", "f(1, 2)" }, { "3", "3" } },
{ [] { CE_LOG(note, f(1, 2), "x,y"); }, 2, 0, { "f(1, 2)", "\"x,y\"" }, { "3", "x,y" } },
{ [] { CE_LOG(note, f(1, 2), ','); }, 2, 0, { "f(1, 2)", "','" }, { "3", "," } },
{ [] { CE_LOG(note, f(1, 2), hit()); }, 2, 1, { "f(1, 2)", "hit()" }, { "3", "7" } },
{ [] { CE_LOG(note, f(1, 2), (a, b)); }, 2, 0, { "f(1, 2)", "(a, b)" }, { "3", "6" } },
{ [] { CE_LOG(note, f(1, 2), arr[f(1, 1)]); }, 2, 0, { "f(1, 2)", "arr[f(1, 1)]" }, { "3", "30" } },
{ [] { CE_LOG(note, f(1, 2), P{ 1, 2 }.y); }, 2, 0, { "f(1, 2)", "P{ 1, 2 }.y" }, { "3", "2" } },
{ [] { CE_LOG(note, f(1, 2), "\")"); }, 2, 0, { "f(1, 2)", "\"\\\")\"" }, { "3", "\")" } },
{ [] { CE_LOG(note, f(1, 2), '\''); }, 2, 0, { "f(1, 2)", "'\\''" }, { "3", "'" } },
{ [] { CE_LOG(note, f(1, 2), "("); }, 2, 0, { "f(1, 2)", "\"(\"" }, { "3", "(" } },
{ [] { CE_LOG(note, f(1, 2), '"'); }, 2, 0, { "f(1, 2)", "'\"'" }, { "3", "\"" } },
{ [] { CE_LOG(note, f(1, 2), a < b); }, 2, 0, { "f(1, 2)", "a < b" }, { "3", "#<T>" } },
{ [] { CE_LOG(note, f(1, 2), "\\"); }, 2, 0, { "f(1, 2)", "\"\\\\\"" }, { "3", "\\" } },
{ [] { CE_LOG(note, f(1, 2), sum({ f(1, 1), 2 })); }, 2, 0, { "f(1, 2)", "sum({ f(1, 1), 2 })" }, { "3", "4" } },
{ [] { CE_LOG(note, f(1, 2), (void(0), char(64))); }, 2, 0, { "f(1, 2)", "(void(0), char(64))" }, { "3", "@" } },
{ [] { CE_LOG(note, "x,y", a); }, 2, 0, { "\"x,y\"", "a" }, { "x,y", "5" } },
{ [] { CE_LOG(note, "x,y", f(1, 2)); }, 2, 0, { "\"x,y\"", "f(1, 2)" }, { "x,y", "3" } },
{ [] { CE_LOG(note, "x,y", "x,y"); }, 2, 0, { "\"x,y\"", "\"x,y\"" }, { "x,y", "x,y" } },
{ [] { CE_LOG(note, "x,y", ','); }, 2, 0, { "\"x,y\"", "','" }, { "x,y", "," } },
{ [] { CE_LOG(note, "x,y", hit()); }, 2, 1, { "\"x,y\"", "hit()" }, { "x,y", "7" } },
{ [] { CE_LOG(note, "x,y", (a, b)); }, 2, 0, { "\"x,y\"", "(a, b)" }, { "x,y", "6" } },
{ [] { CE_LOG(note, "x,y", arr[f(1, 1)]); }, 2, 0, { "\"x,y\"", "arr[f(1, 1)]" }, { "x,y", "30" } },
{ [] { CE_LOG(note, "x,y", P{ 1, 2 }.y); }, 2, 0, { "\"x,y\"", "P{ 1, 2 }.y" }, { "x,y", "2" } },
{ [] { CE_LOG(note, "x,y", "\")"); }, 2, 0, { "\"x,y\"", "\"\\\")\"" }, { "x,y", "\")" } },
{ [] { CE_LOG(note, "x,y", '\''); }, 2, 0, { "\"x,y\"", "'\\''" }, { "x,y", "'" } },
{ [] { CE_LOG(note, "x,y", "("); }, 2, 0, { "\"x,y\"", "\"(\"" }, { "x,y", "(" } },
{ [] { CE_LOG(note, "x,y", '"'); }, 2, 0, { "\"x,y\"", "'\"'" }, { "x,y", "\"" } },
{ [] { CE_LOG(note, "x,y", a < b); }, 2, 0, { "\"x,y\"", "a < b" }, { "x,y", "#<T>" } },
{ [] { CE_LOG(note, "x,y", "\\"); }, 2, 0, { "\"x,y\"", "\"\\\\\"" }, { "x,y", "\\" } },
{ [] { CE_LOG(note, "x,y", sum({ f(1, 1), 2 })); }, 2, 0, { "\"x,y\"", "sum({ f(1, 1), 2 })" }, { "x,y", "4" } },
{ [] { CE_LOG(note, "x,y", (void(0), char(64))); }, 2, 0, { "\"x,y\"", "(void(0), char(64))" }, { "x,y", "@" } },
{ [] { CE_LOG(note, ',', a); }, 2, 0, { "','", "a" }, { ",", "5" } },
{ [] { CE_LOG(note, ',', f(1, 2)); }, 2, 0, { "','", "f(1, 2)" }, { ",", "3" } },
{ [] { CE_LOG(note, ',', "x,y"); }, 2, 0, { "','", "\"x,y\"" }, { ",", "x,y" } },
{ [] { CE_LOG(note, ',', ','); }, 2, 0, { "','", "','" }, { ",", "," } },
{ [] { CE_LOG(note, ',', hit()); }, 2, 1, { "','", "hit()" }, { ",", "7" } },
{ [] { CE_LOG(note, ',', (a, b)); }, 2, 0, { "','", "(a, b)" }, { ",", "6" } },
{ [] { CE_LOG(note, ',', arr[f(1, 1)]); }, 2, 0, { "','", "arr[f(1, 1)]" }, { ",", "30" } },
{ [] { CE_LOG(note, ',', P{ 1, 2 }.y); }, 2, 0, { "','", "P{ 1, 2 }.y" }, { ",", "2" } },
{ [] { CE_LOG(note, ',', "\")"); }, 2, 0, { "','", "\"\\\")\"" }, { ",", "\")" } },
{ [] { CE_LOG(note, ',', '\''); }, 2, 0, { "','", "'\\''" }, { ",", "'" } },
{ [] { CE_LOG(note, ',', "("); }, 2, 0, { "','", "\"(\"" }, { ",", "(" } },
{ [] { CE_LOG(note, ',', '"'); }, 2, 0, { "','", "'\"'" }, { ",", "\"" } },
{ [] { CE_LOG(note, ',', a < b); }, 2, 0, { "','", "a < b" }, { ",", "#<T>" } },
{ [] { CE_LOG(note, ',', "\\"); }, 2, 0, { "','", "\"\\\\\"" }, { ",", "\\" } },
{ [] { CE_LOG(note, ',', sum({ f(1, 1), 2 })); }, 2, 0, { "','", "sum({ f(1, 1), 2 })" }, { ",", "4" } },
{ [] { CE_LOG(note, ',', (void(0), char(64))); }, 2, 0, { "','", "(void(0), char(64))" }, { ",", "@" } },
{ [] { CE_LOG(note, hit(), a); }, 2, 1, { "hit()", "a" }, { "7", "5" } },
{ [] { CE_LOG(note, hit(), f(1, 2)); }, 2, 1, { "hit()", "f(1, 2)" }, { "7", "3" } },
{ [] { CE_LOG(note, hit(), "x,y"); }, 2, 1, { "hit()", "\"x,y\"" }, { "7", "x,y" } },
{ [] { CE_LOG(note, hit(), ','); }, 2, 1, { "hit()", "','" }, { "7", "," } },
{ [] { CE_LOG(note, hit(), hit()); }, 2, 2, { "hit()", "hit()" }, { "7", "7" } },
{ [] { CE_LOG(note, hit(), (a, b)); }, 2, 1, { "hit()", "(a, b)" }, { "7", "6" } },
{ [] { CE_LOG(note, hit(), arr[f(1, 1)]); }, 2, 1, { "hit()", "arr[f(1, 1)]" }, { "7", "30" } },
{ [] { CE_LOG(note, hit(), P{ 1, 2 }.y); }, 2, 1, { "hit()", "P{ 1, 2 }.y" }, { "7", "2" } },
{ [] { CE_LOG(note, hit(), "\")"); }, 2, 1, { "hit()", "\"\\\")\"" }, { "7", "\")" } },
{ [] { CE_LOG(note, hit(), '\''); }, 2, 1, { "hit()", "'\\''" }, { "7", "'" } },
{ [] { CE_LOG(note, hit(), "("); }, 2, 1, { "hit()", "\"(\"" }, { "7", "(" } },
{ [] { CE_LOG(note, hit(), '"'); }, 2, 1, { "hit()", "'\"'" }, { "7", "\"" } },
{ [] { CE_LOG(note, hit(), a < b); }, 2, 1, { "hit()", "a < b" }, { "7", "#<T>" } },
{ [] { CE_LOG(note, hit(), "\\"); }, 2, 1, { "hit()", "\"\\\\\"" }, { "7", "\\" } },
{ [] { CE_LOG(note, hit(), sum({ f(1, 1), 2 })); }, 2, 1, { "hit()", "sum({ f(1, 1), 2 })" }, { "7", "4" } },
{ [] { CE_LOG(note, hit(), (void(0), char(64))); }, 2, 1, { "hit()", "(void(0), char(64))" }, { "7", "@" } },
{ [] { CE_LOG(note, (a, b), a); }, 2, 0, { "(a, b)", "a" }, { "6", "5" } },
{ [] { CE_LOG(note, (a, b), f(1, 2)); }, 2, 0, { "(a, b)", "f(1, 2)" }, { "6", "3" } },
{ [] { CE_LOG(note, (a, b), "x,y"); }, 2, 0, { "(a, b)", "\"x,y\"" }, { "6", "x,y" } },
{ [] { CE_LOG(note, (a, b), ','); }, 2, 0, { "(a, b)", "','" }, { "6", "," } },
{ [] { CE_LOG(note, (a, b), hit()); }, 2, 1, { "(a, b)", "hit()" }, { "6", "7" } },
{ [] { CE_LOG(note, (a, b), (a, b)); }, 2, 0, { "(a, b)", "(a, b)" }, { "6", "6" } },
{ [] { CE_LOG(note, (a, b), arr[f(1, 1)]); }, 2, 0, { "(a, b)", "arr[f(1, 1)]" }, { "6", "30" } },
{ [] { CE_LOG(note, (a, b), P{ 1, 2 }.y); }, 2, 0, { "(a, b)", "P{ 1, 2 }.y" }, { "6", "2" } },
{ [] { CE_LOG(note, (a, b), "\")"); }, 2, 0, { "(a, b)", "\"\\\")\"" }, { "6", "\")" } },
{ [] { CE_LOG(note, (a, b), '\''); }, 2, 0, { "(a, b)", "'\\''" }, { "6", "'" } },
{ [] { CE_LOG(note, (a, b), "("); }, 2, 0, { "(a, b)", "\"(\"" }, { "6", "(" } },
{ [] { CE_LOG(note, (a, b), '"'); }, 2, 0, { "(a, b)", "'\"'" }, { "6", "\"" } },
{ [] { CE_LOG(note, (a, b), a < b); }, 2, 0, { "(a, b)", "a < b" }, { "6", "#<T>" } },
{ [] { CE_LOG(note, (a, b), "\\"); }, 2, 0, { "(a, b)", "\"\\\\\"" }, { "6", "\\" } },
{ [] { CE_LOG(note, (a, b), sum({ f(1, 1), 2 })); }, 2, 0, { "(a, b)", "sum({ f(1, 1), 2 })" }, { "6", "4" } },
{ [] { CE_LOG(note, (a, b), (void(0), char(64))); }, 2, 0, { "(a, b)", "(void(0), char(64))" }, { "6", "@" } },
{ [] { CE_LOG(note, arr[f(1, 1)], a); }, 2, 0, { "arr[f(1, 1)]", "a" }, { "30", "5" } },
{ [] { CE_LOG(note, arr[f(1, 1)], f(1, 2)); }, 2, 0, { "arr[f(1, 1)]", "f(1, 2)" }, { "30", "3" } },
{ [] { CE_LOG(note, arr[f(1, 1)], "x,y"); }, 2, 0, { "arr[f(1, 1)]", "\"x,y\"" }, { "30", "x,y" } },
{ [] { CE_LOG(note, arr[f(1, 1)], ','); }, 2, 0, { "arr[f(1, 1)]", "','" }, { "30", "," } },
{ [] { CE_LOG(note, arr[f(1, 1)], hit()); }, 2, 1, { "arr[f(1, 1)]", "hit()" }, { "30", "7" } },
{ [] { CE_LOG(note, arr[f(1, 1)], (a, b)); }, 2, 0, { "arr[f(1, 1)]", "(a, b)" }, { "30", "6" } },
{ [] { CE_LOG(note, arr[f(1, 1)], arr[f(1, 1)]); }, 2, 0, { "arr[f(1, 1)]", "arr[f(1, 1)]" }, { "30", "30" } },
{ [] { CE_LOG(note, arr[f(1, 1)], P{ 1, 2 }.y); }, 2, 0, { "arr[f(1, 1)]", "P{ 1, 2 }.y" }, { "30", "2" } },
{ [] { CE_LOG(note, arr[f(1, 1)], "\")"); }, 2, 0, { "arr[f(1, 1)]", "\"\\\")\"" }, { "30", "\")" } },
{ [] { CE_LOG(note, arr[f(1, 1)], '\''); }, 2, 0, { "arr[f(1, 1)]", "'\\''" }, { "30", "'" } },
{ [] { CE_LOG(note, arr[f(1, 1)], "("); }, 2, 0, { "arr[f(1, 1)]", "\"(\"" }, { "30", "(" } },
{ [] { CE_LOG(note, arr[f(1, 1)], '"'); }, 2, 0, { "arr[f(1, 1)]", "'\"'" }, { "30", "\"" } },
{ [] { CE_LOG(note, arr[f(1, 1)], a < b); }, 2, 0, { "arr[f(1, 1)]", "a < b" }, { "30", "#<T>" } },
{ [] { CE_LOG(note, arr[f(1, 1)], "\\"); }, 2, 0, { "arr[f(1, 1)]", "\"\\\\\"" }, { "30", "\\" } },
{ [] { CE_LOG(note, arr[f(1, 1)], sum({ f(1, 1), 2 })); }, 2, 0, { "arr[f(1, 1)]", "sum({ f(1, 1), 2 })" }, { "30", "4" } },
{ [] { CE_LOG(note, arr[f(1, 1)], (void(0), char(64))); }, 2, 0, { "arr[f(1, 1)]", "(void(0), char(64))" }, { "30", "@" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, a); }, 2, 0, { "P{ 1, 2 }.y", "a" }, { "2", "5" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, f(1, 2)); }, 2, 0, { "P{ 1, 2 }.y", "f(1, 2)" }, { "2", "3" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, "x,y"); }, 2, 0, { "P{ 1, 2 }.y", "\"x,y\"" }, { "2", "x,y" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, ','); }, 2, 0, { "P{ 1, 2 }.y", "','" }, { "2", "," } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, hit()); }, 2, 1, { "P{ 1, 2 }.y", "hit()" }, { "2", "7" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, (a, b)); }, 2, 0, { "P{ 1, 2 }.y", "(a, b)" }, { "2", "6" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, arr[f(1, 1)]); }, 2, 0, { "P{ 1, 2 }.y", "arr[f(1, 1)]" }, { "2", "30" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, P{ 1, 2 }.y); }, 2, 0, { "P{ 1, 2 }.y", "P{ 1, 2 }.y" }, { "2", "2" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, "\")"); }, 2, 0, { "P{ 1, 2 }.y", "\"\\\")\"" }, { "2", "\")" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, '\''); }, 2, 0, { "P{ 1, 2 }.y", "'\\''" }, { "2", "'" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, "("); }, 2, 0, { "P{ 1, 2 }.y", "\"(\"" }, { "2", "(" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, '"'); }, 2, 0, { "P{ 1, 2 }.y", "'\"'" }, { "2", "\"" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, a < b); }, 2, 0, { "P{ 1, 2 }.y", "a < b" }, { "2", "#<T>" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, "\\"); }, 2, 0, { "P{ 1, 2 }.y", "\"\\\\\"" }, { "2", "\\" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, sum({ f(1, 1), 2 })); }, 2, 0, { "P{ 1, 2 }.y", "sum({ f(1, 1), 2 })" }, { "2", "4" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, (void(0), char(64))); }, 2, 0, { "P{ 1, 2 }.y", "(void(0), char(64))" }, { "2", "@" } },
{ [] { CE_LOG(note, "\")", a); }, 2, 0, { "\"\\\")\"", "a" }, { "\")", "5" } },
{ [] { CE_LOG(note, "\")", f(1, 2)); }, 2, 0, { "\"\\\")\"", "f(1, 2)" }, { "\")", "3" } },
{ [] { CE_LOG(note, "\")", "x,y"); }, 2, 0, { "\"\\\")\"", "\"x,y\"" }, { "\")", "x,y" } },
{ [] { CE_LOG(note, "\")", ','); }, 2, 0, { "\"\\\")\"", "','" }, { "\")", "," } },
{ [] { CE_LOG(note, "\")", hit()); }, 2, 1, { "\"\\\")\"", "hit()" }, { "\")", "7" } },
{ [] { CE_LOG(note, "\")", (a, b)); }, 2, 0, { "\"\\\")\"", "(a, b)" }, { "\")", "6" } },
{ [] { CE_LOG(note, "\")", arr[f(1, 1)]); }, 2, 0, { "\"\\\")\"", "arr[f(1, 1)]" }, { "\")", "30" } },
{ [] { CE_LOG(note, "\")", P{ 1, 2 }.y); }, 2, 0, { "\"\\\")\"", "P{ 1, 2 }.y" }, { "\")", "2" } },
{ [] { CE_LOG(note, "\")", "\")"); }, 2, 0, { "\"\\\")\"", "\"\\\")\"" }, { "\")", "\")" } },
{ [] { CE_LOG(note, "\")", '\''); }, 2, 0, { "\"\\\")\"", "'\\''" }, { "\")", "'" } },
{ [] { CE_LOG(note, "\")", "("); }, 2, 0, { "\"\\\")\"", "\"(\"" }, { "\")", "(" } },
{ [] { CE_LOG(note, "\")", '"'); }, 2, 0, { "\"\\\")\"", "'\"'" }, { "\")", "\"" } },
{ [] { CE_LOG(note, "\")", a < b); }, 2, 0, { "\"\\\")\"", "a < b" }, { "\")", "#<T>" } },
{ [] { CE_LOG(note, "\")", "\\"); }, 2, 0, { "\"\\\")\"", "\"\\\\\"" }, { "\")", "\\" } },
{ [] { CE_LOG(note, "\")", sum({ f(1, 1), 2 })); }, 2, 0, { "\"\\\")\"", "sum({ f(1, 1), 2 })" }, { "\")", "4" } },
{ [] { CE_LOG(note, "\")", (void(0), char(64))); }, 2, 0, { "\"\\\")\"", "(void(0), char(64))" }, { "\")", "@" } },
{ [] { CE_LOG(note, '\'', a); }, 2, 0, { "'\\''", "a" }, { "'", "5" } },
{ [] { CE_LOG(note, '\'', f(1, 2)); }, 2, 0, { "'\\''", "f(1, 2)" }, { "'", "3" } },
{ [] { CE_LOG(note, '\'', "x,y"); }, 2, 0, { "'\\''", "\"x,y\"" }, { "'", "x,y" } },
{ [] { CE_LOG(note, '\'', ','); }, 2, 0, { "'\\''", "','" }, { "'", "," } },
{ [] { CE_LOG(note, '\'', hit()); }, 2, 1, { "'\\''", "hit()" }, { "'", "7" } },
{ [] { CE_LOG(note, '\'', (a, b)); }, 2, 0, { "'\\''", "(a, b)" }, { "'", "6" } },
{ [] { CE_LOG(note, '\'', arr[f(1, 1)]); }, 2, 0, { "'\\''", "arr[f(1, 1)]" }, { "'", "30" } },
{ [] { CE_LOG(note, '\'', P{ 1, 2 }.y); }, 2, 0, { "'\\''", "P{ 1, 2 }.y" }, { "'", "2" } },
{ [] { CE_LOG(note, '\'', "\")"); }, 2, 0, { "'\\''", "\"\\\")\"" }, { "'", "\")" } },
{ [] { CE_LOG(note, '\'', '\''); }, 2, 0, { "'\\''", "'\\''" }, { "'", "'" } },
{ [] { CE_LOG(note, '\'', "("); }, 2, 0, { "'\\''", "\"(\"" }, { "'", "(" } },
{ [] { CE_LOG(note, '\'', '"'); }, 2, 0, { "'\\''", "'\"'" }, { "'", "\"" } },
{ [] { CE_LOG(note, '\'', a < b); }, 2, 0, { "'\\''", "a < b" }, { "'", "#<T>" } },
{ [] { CE_LOG(note, '\'', "\\"); }, 2, 0, { "'\\''", "\"\\\\\"" }, { "'", "\\" } },
{ [] { CE_LOG(note, '\'', sum({ f(1, 1), 2 })); }, 2, 0, { "'\\''", "sum({ f(1, 1), 2 })" }, { "'", "4" } },
{ [] { CE_LOG(note, '\'', (void(0), char(64))); }, 2, 0, { "'\\''", "(void(0), char(64))" }, { "'", "@" } },
{ [] { CE_LOG(note, "(", a); }, 2, 0, { "\"(\"", "a" }, { "(", "5" } },
{ [] { CE_LOG(note, "(", f(1, 2)); }, 2, 0, { "\"(\"", "f(1, 2)" }, { "(", "3" } },
{ [] { CE_LOG(note, "(", "x,y"); }, 2, 0, { "\"(\"", "\"x,y\"" }, { "(", "x,y" } },
{ [] { CE_LOG(note, "(", ','); }, 2, 0, { "\"(\"", "','" }, { "(", "," } },
{ [] { CE_LOG(note, "(", hit()); }, 2, 1, { "\"(\"", "hit()" }, { "(", "7" } },
{ [] { CE_LOG(note, "(", (a, b)); }, 2, 0, { "\"(\"", "(a, b)" }, { "(", "6" } },
{ [] { CE_LOG(note, "(", arr[f(1, 1)]); }, 2, 0, { "\"(\"", "arr[f(1, 1)]" }, { "(", "30" } },
{ [] { CE_LOG(note, "(", P{ 1, 2 }.y); }, 2, 0, { "\"(\"", "P{ 1, 2 }.y" }, { "(", "2" } },
{ [] { CE_LOG(note, "(", "\")"); }, 2, 0, { "\"(\"", "\"\\\")\"" }, { "(", "\")" } },
{ [] { CE_LOG(note, "(", '\''); }, 2, 0, { "\"(\"", "'\\''" }, { "(", "'" } },
{ [] { CE_LOG(note, "(", "("); }, 2, 0, { "\"(\"", "\"(\"" }, { "(", "(" } },
{ [] { CE_LOG(note, "(", '"'); }, 2, 0, { "\"(\"", "'\"'" }, { "(", "\"" } },
{ [] { CE_LOG(note, "(", a < b); }, 2, 0, { "\"(\"", "a < b" }, { "(", "#<T>" } },
{ [] { CE_LOG(note, "(", "\\"); }, 2, 0, { "\"(\"", "\"\\\\\"" }, { "(", "\\" } },
{ [] { CE_LOG(note, "(", sum({ f(1, 1), 2 })); }, 2, 0, { "\"(\"", "sum({ f(1, 1), 2 })" }, { "(", "4" } },
{ [] { CE_LOG(note, "(", (void(0), char(64))); }, 2, 0, { "\"(\"", "(void(0), char(64))" }, { "(", "@" } },
{ [] { CE_LOG(note, '"', a); }, 2, 0, { "'\"'", "a" }, { "\"", "5" } },
{ [] { CE_LOG(note, '"', f(1, 2)); }, 2, 0, { "'\"'", "f(1, 2)" }, { "\"", "3" } },
{ [] { CE_LOG(note, '"', "x,y"); }, 2, 0, { "'\"'", "\"x,y\"" }, { "\"", "x,y" } },
{ [] { CE_LOG(note, '"', ','); }, 2, 0, { "'\"'", "','" }, { "\"", "," } },
{ [] { CE_LOG(note, '"', hit()); }, 2, 1, { "'\"'", "hit()" }, { "\"", "7" } },
{ [] { CE_LOG(note, '"', (a, b)); }, 2, 0, { "'\"'", "(a, b)" }, { "\"", "6" } },
{ [] { CE_LOG(note, '"', arr[f(1, 1)]); }, 2, 0, { "'\"'", "arr[f(1, 1)]" }, { "\"", "30" } },
{ [] { CE_LOG(note, '"', P{ 1, 2 }.y); }, 2, 0, { "'\"'", "P{ 1, 2 }.y" }, { "\"", "2" } },
{ [] { CE_LOG(note, '"', "\")"); }, 2, 0, { "'\"'", "\"\\\")\"" }, { "\"", "\")" } },
{ [] { CE_LOG(note, '"', '\''); }, 2, 0, { "'\"'", "'\\''" }, { "\"", "'" } },
{ [] { CE_LOG(note, '"', "("); }, 2, 0, { "'\"'", "\"(\"" }, { "\"", "(" } },
{ [] { CE_LOG(note, '"', '"'); }, 2, 0, { "'\"'", "'\"'" }, { "\"", "\"" } },
{ [] { CE_LOG(note, '"', a < b); }, 2, 0, { "'\"'", "a < b" }, { "\"", "#<T>" } },
{ [] { CE_LOG(note, '"', "\\"); }, 2, 0, { "'\"'", "\"\\\\\"" }, { "\"", "\\" } },
{ [] { CE_LOG(note, '"', sum({ f(1, 1), 2 })); }, 2, 0, { "'\"'", "sum({ f(1, 1), 2 })" }, { "\"", "4" } },
{ [] { CE_LOG(note, '"', (void(0), char(64))); }, 2, 0, { "'\"'", "(void(0), char(64))" }, { "\"", "@" } },
{ [] { CE_LOG(note, a < b, a); }, 2, 0, { "a < b", "a" }, { "#<T>", "5" } },
{ [] { CE_LOG(note, a < b, f(1, 2)); }, 2, 0, { "a < b", "f(1, 2)" }, { "#<T>", "3" } },
{ [] { CE_LOG(note, a < b, "x,y"); }, 2, 0, { "a < b", "\"x,y\"" }, { "#<T>", "x,y" } },
{ [] { CE_LOG(note, a < b, ','); }, 2, 0, { "a < b", "','" }, { "#<T>", "," } },
{ [] { CE_LOG(note, a < b, hit()); }, 2, 1, { "a < b", "hit()" }, { "#<T>", "7" } },
{ [] { CE_LOG(note, a < b, (a, b)); }, 2, 0, { "a < b", "(a, b)" }, { "#<T>", "6" } },
{ [] { CE_LOG(note, a < b, arr[f(1, 1)]); }, 2, 0, { "a < b", "arr[f(1, 1)]" }, { "#<T>", "30" } },
{ [] { CE_LOG(note, a < b, P{ 1, 2 }.y); }, 2, 0, { "a < b", "P{ 1, 2 }.y" }, { "#<T>", "2" } },
{ [] { CE_LOG(note, a < b, "\")"); }, 2, 0, { "a < b", "\"\\\")\"" }, { "#<T>", "\")" } },
{ [] { CE_LOG(note, a < b, '\''); }, 2, 0, { "a < b", "'\\''" }, { "#<T>", "'" } },
{ [] { CE_LOG(note, a < b, "("); }, 2, 0, { "a < b", "\"(\"" }, { "#<T>", "(" } },
{ [] { CE_LOG(note, a < b, '"'); }, 2, 0, { "a < b", "'\"'" }, { "#<T>", "\"" } },
{ [] { CE_LOG(note, a < b, a < b); }, 2, 0, { "a < b", "a < b" }, { "#<T>", "#<T>" } },
{ [] { CE_LOG(note, a < b, "\\"); }, 2, 0, { "a < b", "\"\\\\\"" }, { "#<T>", "\\" } },
{ [] { CE_LOG(note, a < b, sum({ f(1, 1), 2 })); }, 2, 0, { "a < b", "sum({ f(1, 1), 2 })" }, { "#<T>", "4" } },
{ [] { CE_LOG(note, a < b, (void(0), char(64))); }, 2, 0, { "a < b", "(void(0), char(64))" }, { "#<T>", "@" } },
{ [] { CE_LOG(note, "\\", a); }, 2, 0, { "\"\\\\\"", "a" }, { "\\", "5" } },
{ [] { CE_LOG(note, "\\", f(1, 2)); }, 2, 0, { "\"\\\\\"", "f(1, 2)" }, { "\\", "3" } },
{ [] { CE_LOG(note, "\\", "x,y"); }, 2, 0, { "\"\\\\\"", "\"x,y\"" }, { "\\", "x,y" } },
{ [] { CE_LOG(note, "\\", ','); }, 2, 0, { "\"\\\\\"", "','" }, { "\\", "," } },
{ [] { CE_LOG(note, "\\", hit()); }, 2, 1, { "\"\\\\\"", "hit()" }, { "\\", "7" } },
{ [] { CE_LOG(note, "\\", (a, b)); }, 2, 0, { "\"\\\\\"", "(a, b)" }, { "\\", "6" } },
{ [] { CE_LOG(note, "\\", arr[f(1, 1)]); }, 2, 0, { "\"\\\\\"", "arr[f(1, 1)]" }, { "\\", "30" } },
{ [] { CE_LOG(note, "\\", P{ 1, 2 }.y); }, 2, 0, { "\"\\\\\"", "P{ 1, 2 }.y" }, { "\\", "2" } },
{ [] { CE_LOG(note, "\\", "\")"); }, 2, 0, { "\"\\\\\"", "\"\\\")\"" }, { "\\", "\")" } },
{ [] { CE_LOG(note, "\\", '\''); }, 2, 0, { "\"\\\\\"", "'\\''" }, { "\\", "'" } },
{ [] { CE_LOG(note, "\\", "("); }, 2, 0, { "\"\\\\\"", "\"(\"" }, { "\\", "(" } },
{ [] { CE_LOG(note, "\\", '"'); }, 2, 0, { "\"\\\\\"", "'\"'" }, { "\\", "\"" } },
{ [] { CE_LOG(note, "\\", a < b); }, 2, 0, { "\"\\\\\"", "a < b" }, { "\\", "#<T>" } },
{ [] { CE_LOG(note, "\\", "\\"); }, 2, 0, { "\"\\\\\"", "\"\\\\\"" }, { "\\", "\\" } },
{ [] { CE_LOG(note, "\\", sum({ f(1, 1), 2 })); }, 2, 0, { "\"\\\\\"", "sum({ f(1, 1), 2 })" }, { "\\", "4" } },
{ [] { CE_LOG(note, "\\", (void(0), char(64))); }, 2, 0, { "\"\\\\\"", "(void(0), char(64))" }, { "\\", "@" } },
{ [] { CE_LOG(note, sum({ f(1, 1), 2 }), a); }, 2, 0, { "sum({ f(1, 1), 2 })", "a" }, { "4", "5" } },
{ [] { CE_LOG(note, sum({ f(1, 1), 2 }), f(1, 2)); }, 2, 0, { "sum({ f(1, 1), 2 })", "f(1, 2)" }, { "4", "3" } },
{ [] { CE_LOG(note, sum({ f(1, 1), 2 }), "x,y"); }, 2, 0, { "sum({ f(1, 1), 2 })", "\"x,y\"" }, { "4", "x,y" } },
{ [] { CE_LOG(note, sum({ f(1, 1), 2 }), ','); }, 2, 0, { "sum({ f(1, 1), 2 })", "','" }, { "4", "," } },
{ [] { CE_LOG(note, sum({ f(1, 1), 2 }), hit()); }, 2, 1, { "sum({ f(1, 1), 2 })", "hit()" }, { "4", "7" } },
{ [] { CE_LOG(note, sum({ f(1, 1), 2 }), (a, b)); }, 2, 0, { "sum({ f(1, 1), 2 })", "(a, b)" }, { "4", "6" } },
{ [] { CE_LOG(note, sum({ f(1, 1), 2 }), arr[f(1, 1)]); }, 2, 0, { "sum({ f(1, 1), 2 })", "arr[f(1, 1)]" }, { "4", "30" } },
{ [] { CE_LOG(note, sum({ f(1, 1), 2 }), P{ 1, 2 }.y); }, 2, 0, { "sum({ f(1, 1), 2 })", "P{ 1, 2 }.y" }, { "4", "2" } },
{ [] { CE_LOG(note, sum({ f(1, 1), 2 }), "\")"); }, 2, 0, { "sum({ f(1, 1), 2 })", "\"\\\")\"" }, { "4", "\")" } },
{ [] { CE_LOG(note, sum({ f(1, 1), 2 }), '\''); }, 2, 0, { "sum({ f(1, 1), 2 })", "'\\''" }, { "4", "'" } },
{ [] { CE_LOG(note, sum({ f(1, 1), 2 }), "("); }, 2, 0, { "sum({ f(1, 1), 2 })", "\"(\"" }, { "4", "(" } },
{ [] { CE_LOG(note, sum({ f(1, 1), 2 }), '"'); }, 2, 0, { "sum({ f(1, 1), 2 })", "'\"'" }, { "4", "\"" } },
{ [] { CE_LOG(note, sum({ f(1, 1), 2 }), a < b); }, 2, 0, { "sum({ f(1, 1), 2 })", "a < b" }, { "4", "#<T>" } },
{ [] { CE_LOG(note, sum({ f(1, 1), 2 }), "\\"); }, 2, 0, { "sum({ f(1, 1), 2 })", "\"\\\\\"" }, { "4", "\\" } },
{ [] { CE_LOG(note, sum({ f(1, 1), 2 }), sum({ f(1, 1), 2 })); }, 2, 0, { "sum({ f(1, 1), 2 })", "sum({ f(1, 1), 2 })" }, { "4", "4" } },
{ [] { CE_LOG(note, sum({ f(1, 1), 2 }), (void(0), char(64))); }, 2, 0, { "sum({ f(1, 1), 2 })", "(void(0), char(64))" }, { "4", "@" } },
{ [] { CE_LOG(note, (void(0), char(64)), a); }, 2, 0, { "(void(0), char(64))", "a" }, { "@", "5" } },
{ [] { CE_LOG(note, (void(0), char(64)), f(1, 2)); }, 2, 0, { "(void(0), char(64))", "f(1, 2)" }, { "@", "3" } },
{ [] { CE_LOG(note, (void(0), char(64)), "x,y"); }, 2, 0, { "(void(0), char(64))", "\"x,y\"" }, { "@", "x,y" } },
{ [] { CE_LOG(note, (void(0), char(64)), ','); }, 2, 0, { "(void(0), char(64))", "','" }, { "@", "," } },
{ [] { CE_LOG(note, (void(0), char(64)), hit()); }, 2, 1, { "(void(0), char(64))", "hit()" }, { "@", "7" } },
{ [] { CE_LOG(note, (void(0), char(64)), (a, b)); }, 2, 0, { "(void(0), char(64))", "(a, b)" }, { "@", "6" } },
{ [] { CE_LOG(note, (void(0), char(64)), arr[f(1, 1)]); }, 2, 0, { "(void(0), char(64))", "arr[f(1, 1)]" }, { "@", "30" } },
{ [] { CE_LOG(note, (void(0), char(64)), P{ 1, 2 }.y); }, 2, 0, { "(void(0), char(64))", "P{ 1, 2 }.y" }, { "@", "2" } },
{ [] { CE_LOG(note, (void(0), char(64)), "\")"); }, 2, 0, { "(void(0), char(64))", "\"\\\")\"" }, { "@", "\")" } },
{ [] { CE_LOG(note, (void(0), char(64)), '\''); }, 2, 0, { "(void(0), char(64))", "'\\''" }, { "@", "'" } },
{ [] { CE_LOG(note, (void(0), char(64)), "("); }, 2, 0, { "(void(0), char(64))", "\"(\"" }, { "@", "(" } },
{ [] { CE_LOG(note, (void(0), char(64)), '"'); }, 2, 0, { "(void(0), char(64))", "'\"'" }, { "@", "\"" } },
{ [] { CE_LOG(note, (void(0), char(64)), a < b); }, 2, 0, { "(void(0), char(64))", "a < b" }, { "@", "#<T>" } },
{ [] { CE_LOG(note, (void(0), char(64)), "\\"); }, 2, 0, { "(void(0), char(64))", "\"\\\\\"" }, { "@", "\\" } },
{ [] { CE_LOG(note, (void(0), char(64)), sum({ f(1, 1), 2 })); }, 2, 0, { "(void(0), char(64))", "sum({ f(1, 1), 2 })" }, { "@", "4" } },
{ [] { CE_LOG(note, (void(0), char(64)), (void(0), char(64))); }, 2, 0, { "(void(0), char(64))", "(void(0), char(64))" }, { "@", "@" } },
{ [] { CE_LOG(note, "x,y", "x,y", "x,y"); }, 3, 0, { "\"x,y\"", "\"x,y\"", "\"x,y\"" }, { "x,y", "x,y", "x,y" } },
{ [] { CE_LOG(note, "x,y", "x,y", hit()); }, 3, 1, { "\"x,y\"", "\"x,y\"", "hit()" }, { "x,y", "x,y", "7" } },
{ [] { CE_LOG(note, "x,y", "x,y", (a, b)); }, 3, 0, { "\"x,y\"", "\"x,y\"", "(a, b)" }, { "x,y", "x,y", "6" } },
{ [] { CE_LOG(note, "x,y", "x,y", P{ 1, 2 }.y); }, 3, 0, { "\"x,y\"", "\"x,y\"", "P{ 1, 2 }.y" }, { "x,y", "x,y", "2" } },
{ [] { CE_LOG(note, "x,y", "x,y", "\")"); }, 3, 0, { "\"x,y\"", "\"x,y\"", "\"\\\")\"" }, { "x,y", "x,y", "\")" } },
{ [] { CE_LOG(note, "x,y", "x,y", '"'); }, 3, 0, { "\"x,y\"", "\"x,y\"", "'\"'" }, { "x,y", "x,y", "\"" } },
{ [] { CE_LOG(note, "x,y", hit(), "x,y"); }, 3, 1, { "\"x,y\"", "hit()", "\"x,y\"" }, { "x,y", "7", "x,y" } },
{ [] { CE_LOG(note, "x,y", hit(), hit()); }, 3, 2, { "\"x,y\"", "hit()", "hit()" }, { "x,y", "7", "7" } },
{ [] { CE_LOG(note, "x,y", hit(), (a, b)); }, 3, 1, { "\"x,y\"", "hit()", "(a, b)" }, { "x,y", "7", "6" } },
{ [] { CE_LOG(note, "x,y", hit(), P{ 1, 2 }.y); }, 3, 1, { "\"x,y\"", "hit()", "P{ 1, 2 }.y" }, { "x,y", "7", "2" } },
{ [] { CE_LOG(note, "x,y", hit(), "\")"); }, 3, 1, { "\"x,y\"", "hit()", "\"\\\")\"" }, { "x,y", "7", "\")" } },
{ [] { CE_LOG(note, "x,y", hit(), '"'); }, 3, 1, { "\"x,y\"", "hit()", "'\"'" }, { "x,y", "7", "\"" } },
{ [] { CE_LOG(note, "x,y", (a, b), "x,y"); }, 3, 0, { "\"x,y\"", "(a, b)", "\"x,y\"" }, { "x,y", "6", "x,y" } },
{ [] { CE_LOG(note, "x,y", (a, b), hit()); }, 3, 1, { "\"x,y\"", "(a, b)", "hit()" }, { "x,y", "6", "7" } },
{ [] { CE_LOG(note, "x,y", (a, b), (a, b)); }, 3, 0, { "\"x,y\"", "(a, b)", "(a, b)" }, { "x,y", "6", "6" } },
{ [] { CE_LOG(note, "x,y", (a, b), P{ 1, 2 }.y); }, 3, 0, { "\"x,y\"", "(a, b)", "P{ 1, 2 }.y" }, { "x,y", "6", "2" } },
{ [] { CE_LOG(note, "x,y", (a, b), "\")"); }, 3, 0, { "\"x,y\"", "(a, b)", "\"\\\")\"" }, { "x,y", "6", "\")" } },
{ [] { CE_LOG(note, "x,y", (a, b), '"'); }, 3, 0, { "\"x,y\"", "(a, b)", "'\"'" }, { "x,y", "6", "\"" } },
{ [] { CE_LOG(note, "x,y", P{ 1, 2 }.y, "x,y"); }, 3, 0, { "\"x,y\"", "P{ 1, 2 }.y", "\"x,y\"" }, { "x,y", "2", "x,y" } },
{ [] { CE_LOG(note, "x,y", P{ 1, 2 }.y, hit()); }, 3, 1, { "\"x,y\"", "P{ 1, 2 }.y", "hit()" }, { "x,y", "2", "7" } },
{ [] { CE_LOG(note, "x,y", P{ 1, 2 }.y, (a, b)); }, 3, 0, { "\"x,y\"", "P{ 1, 2 }.y", "(a, b)" }, { "x,y", "2", "6" } },
{ [] { CE_LOG(note, "x,y", P{ 1, 2 }.y, P{ 1, 2 }.y); }, 3, 0, { "\"x,y\"", "P{ 1, 2 }.y", "P{ 1, 2 }.y" }, { "x,y", "2", "2" } },
{ [] { CE_LOG(note, "x,y", P{ 1, 2 }.y, "\")"); }, 3, 0, { "\"x,y\"", "P{ 1, 2 }.y", "\"\\\")\"" }, { "x,y", "2", "\")" } },
{ [] { CE_LOG(note, "x,y", P{ 1, 2 }.y, '"'); }, 3, 0, { "\"x,y\"", "P{ 1, 2 }.y", "'\"'" }, { "x,y", "2", "\"" } },
{ [] { CE_LOG(note, "x,y", "\")", "x,y"); }, 3, 0, { "\"x,y\"", "\"\\\")\"", "\"x,y\"" }, { "x,y", "\")", "x,y" } },
{ [] { CE_LOG(note, "x,y", "\")", hit()); }, 3, 1, { "\"x,y\"", "\"\\\")\"", "hit()" }, { "x,y", "\")", "7" } },
{ [] { CE_LOG(note, "x,y", "\")", (a, b)); }, 3, 0, { "\"x,y\"", "\"\\\")\"", "(a, b)" }, { "x,y", "\")", "6" } },
{ [] { CE_LOG(note, "x,y", "\")", P{ 1, 2 }.y); }, 3, 0, { "\"x,y\"", "\"\\\")\"", "P{ 1, 2 }.y" }, { "x,y", "\")", "2" } },
{ [] { CE_LOG(note, "x,y", "\")", "\")"); }, 3, 0, { "\"x,y\"", "\"\\\")\"", "\"\\\")\"" }, { "x,y", "\")", "\")" } },
{ [] { CE_LOG(note, "x,y", "\")", '"'); }, 3, 0, { "\"x,y\"", "\"\\\")\"", "'\"'" }, { "x,y", "\")", "\"" } },
{ [] { CE_LOG(note, "x,y", '"', "x,y"); }, 3, 0, { "\"x,y\"", "'\"'", "\"x,y\"" }, { "x,y", "\"", "x,y" } },
{ [] { CE_LOG(note, "x,y", '"', hit()); }, 3, 1, { "\"x,y\"", "'\"'", "hit()" }, { "x,y", "\"", "7" } },
{ [] { CE_LOG(note, "x,y", '"', (a, b)); }, 3, 0, { "\"x,y\"", "'\"'", "(a, b)" }, { "x,y", "\"", "6" } },
{ [] { CE_LOG(note, "x,y", '"', P{ 1, 2 }.y); }, 3, 0, { "\"x,y\"", "'\"'", "P{ 1, 2 }.y" }, { "x,y", "\"", "2" } },
{ [] { CE_LOG(note, "x,y", '"', "\")"); }, 3, 0, { "\"x,y\"", "'\"'", "\"\\\")\"" }, { "x,y", "\"", "\")" } },
{ [] { CE_LOG(note, "x,y", '"', '"'); }, 3, 0, { "\"x,y\"", "'\"'", "'\"'" }, { "x,y", "\"", "\"" } },
{ [] { CE_LOG(note, hit(), "x,y", "x,y"); }, 3, 1, { "hit()", "\"x,y\"", "\"x,y\"" }, { "7", "x,y", "x,y" } },
{ [] { CE_LOG(note, hit(), "x,y", hit()); }, 3, 2, { "hit()", "\"x,y\"", "hit()" }, { "7", "x,y", "7" } },
{ [] { CE_LOG(note, hit(), "x,y", (a, b)); }, 3, 1, { "hit()", "\"x,y\"", "(a, b)" }, { "7", "x,y", "6" } },
{ [] { CE_LOG(note, hit(), "x,y", P{ 1, 2 }.y); }, 3, 1, { "hit()", "\"x,y\"", "P{ 1, 2 }.y" }, { "7", "x,y", "2" } },
{ [] { CE_LOG(note, hit(), "x,y", "\")"); }, 3, 1, { "hit()", "\"x,y\"", "\"\\\")\"" }, { "7", "x,y", "\")" } },
{ [] { CE_LOG(note, hit(), "x,y", '"'); }, 3, 1, { "hit()", "\"x,y\"", "'\"'" }, { "7", "x,y", "\"" } },
{ [] { CE_LOG(note, hit(), hit(), "x,y"); }, 3, 2, { "hit()", "hit()", "\"x,y\"" }, { "7", "7", "x,y" } },
{ [] { CE_LOG(note, hit(), hit(), hit()); }, 3, 3, { "hit()", "hit()", "hit()" }, { "7", "7", "7" } },
{ [] { CE_LOG(note, hit(), hit(), (a, b)); }, 3, 2, { "hit()", "hit()", "(a, b)" }, { "7", "7", "6" } },
{ [] { CE_LOG(note, hit(), hit(), P{ 1, 2 }.y); }, 3, 2, { "hit()", "hit()", "P{ 1, 2 }.y" }, { "7", "7", "2" } },
{ [] { CE_LOG(note, hit(), hit(), "\")"); }, 3, 2, { "hit()", "hit()", "\"\\\")\"" }, { "7", "7", "\")" } },
{ [] { CE_LOG(note, hit(), hit(), '"'); }, 3, 2, { "hit()", "hit()", "'\"'" }, { "7", "7", "\"" } },
{ [] { CE_LOG(note, hit(), (a, b), "x,y"); }, 3, 1, { "hit()", "(a, b)", "\"x,y\"" }, { "7", "6", "x,y" } },
{ [] { CE_LOG(note, hit(), (a, b), hit()); }, 3, 2, { "hit()", "(a, b)", "hit()" }, { "7", "6", "7" } },
{ [] { CE_LOG(note, hit(), (a, b), (a, b)); }, 3, 1, { "hit()", "(a, b)", "(a, b)" }, { "7", "6", "6" } },
{ [] { CE_LOG(note, hit(), (a, b), P{ 1, 2 }.y); }, 3, 1, { "hit()", "(a, b)", "P{ 1, 2 }.y" }, { "7", "6", "2" } },
{ [] { CE_LOG(note, hit(), (a, b), "\")"); }, 3, 1, { "hit()", "(a, b)", "\"\\\")\"" }, { "7", "6", "\")" } },
{ [] { CE_LOG(note, hit(), (a, b), '"'); }, 3, 1, { "hit()", "(a, b)", "'\"'" }, { "7", "6", "\"" } },
{ [] { CE_LOG(note, hit(), P{ 1, 2 }.y, "x,y"); }, 3, 1, { "hit()", "P{ 1, 2 }.y", "\"x,y\"" }, { "7", "2", "x,y" } },
{ [] { CE_LOG(note, hit(), P{ 1, 2 }.y, hit()); }, 3, 2, { "hit()", "P{ 1, 2 }.y", "hit()" }, { "7", "2", "7" } },
{ [] { CE_LOG(note, hit(), P{ 1, 2 }.y, (a, b)); }, 3, 1, { "hit()", "P{ 1, 2 }.y", "(a, b)" }, { "7", "2", "6" } },
{ [] { CE_LOG(note, hit(), P{ 1, 2 }.y, P{ 1, 2 }.y); }, 3, 1, { "hit()", "P{ 1, 2 }.y", "P{ 1, 2 }.y" }, { "7", "2", "2" } },
{ [] { CE_LOG(note, hit(), P{ 1, 2 }.y, "\")"); }, 3, 1, { "hit()", "P{ 1, 2 }.y", "\"\\\")\"" }, { "7", "2", "\")" } },
{ [] { CE_LOG(note, hit(), P{ 1, 2 }.y, '"'); }, 3, 1, { "hit()", "P{ 1, 2 }.y", "'\"'" }, { "7", "2", "\"" } },
{ [] { CE_LOG(note, hit(), "\")", "x,y"); }, 3, 1, { "hit()", "\"\\\")\"", "\"x,y\"" }, { "7", "\")", "x,y" } },
{ [] { CE_LOG(note, hit(), "\")", hit()); }, 3, 2, { "hit()", "\"\\\")\"", "hit()" }, { "7", "\")", "7" } },
{ [] { CE_LOG(note, hit(), "\")", (a, b)); }, 3, 1, { "hit()", "\"\\\")\"", "(a, b)" }, { "7", "\")", "6" } },
{ [] { CE_LOG(note, hit(), "\")", P{ 1, 2 }.y); }, 3, 1, { "hit()", "\"\\\")\"", "P{ 1, 2 }.y" }, { "7", "\")", "2" } },
{ [] { CE_LOG(note, hit(), "\")", "\")"); }, 3, 1, { "hit()", "\"\\\")\"", "\"\\\")\"" }, { "7", "\")", "\")" } },
{ [] { CE_LOG(note, hit(), "\")", '"'); }, 3, 1, { "hit()", "\"\\\")\"", "'\"'" }, { "7", "\")", "\"" } },
{ [] { CE_LOG(note, hit(), '"', "x,y"); }, 3, 1, { "hit()", "'\"'", "\"x,y\"" }, { "7", "\"", "x,y" } },
{ [] { CE_LOG(note, hit(), '"', hit()); }, 3, 2, { "hit()", "'\"'", "hit()" }, { "7", "\"", "7" } },
{ [] { CE_LOG(note, hit(), '"', (a, b)); }, 3, 1, { "hit()", "'\"'", "(a, b)" }, { "7", "\"", "6" } },
{ [] { CE_LOG(note, hit(), '"', P{ 1, 2 }.y); }, 3, 1, { "hit()", "'\"'", "P{ 1, 2 }.y" }, { "7", "\"", "2" } },
{ [] { CE_LOG(note, hit(), '"', "\")"); }, 3, 1, { "hit()", "'\"'", "\"\\\")\"" }, { "7", "\"", "\")" } },
{ [] { CE_LOG(note, hit(), '"', '"'); }, 3, 1, { "hit()", "'\"'", "'\"'" }, { "7", "\"", "\"" } },
{ [] { CE_LOG(note, (a, b), "x,y", "x,y"); }, 3, 0, { "(a, b)", "\"x,y\"", "\"x,y\"" }, { "6", "x,y", "x,y" } },
{ [] { CE_LOG(note, (a, b), "x,y", hit()); }, 3, 1, { "(a, b)", "\"x,y\"", "hit()" }, { "6", "x,y", "7" } },
{ [] { CE_LOG(note, (a, b), "x,y", (a, b)); }, 3, 0, { "(a, b)", "\"x,y\"", "(a, b)" }, { "6", "x,y", "6" } },
{ [] { CE_LOG(note, (a, b), "x,y", P{ 1, 2 }.y); }, 3, 0, { "(a, b)", "\"x,y\"", "P{ 1, 2 }.y" }, { "6", "x,y", "2" } },
{ [] { CE_LOG(note, (a, b), "x,y", "\")"); }, 3, 0, { "(a, b)", "\"x,y\"", "\"\\\")\"" }, { "6", "x,y", "\")" } },
{ [] { CE_LOG(note, (a, b), "x,y", '"'); }, 3, 0, { "(a, b)", "\"x,y\"", "'\"'" }, { "6", "x,y", "\"" } },
{ [] { CE_LOG(note, (a, b), hit(), "x,y"); }, 3, 1, { "(a, b)", "hit()", "\"x,y\"" }, { "6", "7", "x,y" } },
{ [] { CE_LOG(note, (a, b), hit(), hit()); }, 3, 2, { "(a, b)", "hit()", "hit()" }, { "6", "7", "7" } },
{ [] { CE_LOG(note, (a, b), hit(), (a, b)); }, 3, 1, { "(a, b)", "hit()", "(a, b)" }, { "6", "7", "6" } },
{ [] { CE_LOG(note, (a, b), hit(), P{ 1, 2 }.y); }, 3, 1, { "(a, b)", "hit()", "P{ 1, 2 }.y" }, { "6", "7", "2" } },
{ [] { CE_LOG(note, (a, b), hit(), "\")"); }, 3, 1, { "(a, b)", "hit()", "\"\\\")\"" }, { "6", "7", "\")" } },
{ [] { CE_LOG(note, (a, b), hit(), '"'); }, 3, 1, { "(a, b)", "hit()", "'\"'" }, { "6", "7", "\"" } },
{ [] { CE_LOG(note, (a, b), (a, b), "x,y"); }, 3, 0, { "(a, b)", "(a, b)", "\"x,y\"" }, { "6", "6", "x,y" } },
{ [] { CE_LOG(note, (a, b), (a, b), hit()); }, 3, 1, { "(a, b)", "(a, b)", "hit()" }, { "6", "6", "7" } },
{ [] { CE_LOG(note, (a, b), (a, b), (a, b)); }, 3, 0, { "(a, b)", "(a, b)", "(a, b)" }, { "6", "6", "6" } },
{ [] { CE_LOG(note, (a, b), (a, b), P{ 1, 2 }.y); }, 3, 0, { "(a, b)", "(a, b)", "P{ 1, 2 }.y" }, { "6", "6", "2" } },
{ [] { CE_LOG(note, (a, b), (a, b), "\")"); }, 3, 0, { "(a, b)", "(a, b)", "\"\\\")\"" }, { "6", "6", "\")" } },
{ [] { CE_LOG(note, (a, b), (a, b), '"'); }, 3, 0, { "(a, b)", "(a, b)", "'\"'" }, { "6", "6", "\"" } },
{ [] { CE_LOG(note, (a, b), P{ 1, 2 }.y, "x,y"); }, 3, 0, { "(a, b)", "P{ 1, 2 }.y", "\"x,y\"" }, { "6", "2", "x,y" } },
{ [] { CE_LOG(note, (a, b), P{ 1, 2 }.y, hit()); }, 3, 1, { "(a, b)", "P{ 1, 2 }.y", "hit()" }, { "6", "2", "7" } },
{ [] { CE_LOG(note, (a, b), P{ 1, 2 }.y, (a, b)); }, 3, 0, { "(a, b)", "P{ 1, 2 }.y", "(a, b)" }, { "6", "2", "6" } },
{ [] { CE_LOG(note, (a, b), P{ 1, 2 }.y, P{ 1, 2 }.y); }, 3, 0, { "(a, b)", "P{ 1, 2 }.y", "P{ 1, 2 }.y" }, { "6", "2", "2" } },
{ [] { CE_LOG(note, (a, b), P{ 1, 2 }.y, "\")"); }, 3, 0, { "(a, b)", "P{ 1, 2 }.y", "\"\\\")\"" }, { "6", "2", "\")" } },
{ [] { CE_LOG(note, (a, b), P{ 1, 2 }.y, '"'); }, 3, 0, { "(a, b)", "P{ 1, 2 }.y", "'\"'" }, { "6", "2", "\"" } },
{ [] { CE_LOG(note, (a, b), "\")", "x,y"); }, 3, 0, { "(a, b)", "\"\\\")\"", "\"x,y\"" }, { "6", "\")", "x,y" } },
{ [] { CE_LOG(note, (a, b), "\")", hit()); }, 3, 1, { "(a, b)", "\"\\\")\"", "hit()" }, { "6", "\")", "7" } },
{ [] { CE_LOG(note, (a, b), "\")", (a, b)); }, 3, 0, { "(a, b)", "\"\\\")\"", "(a, b)" }, { "6", "\")", "6" } },
{ [] { CE_LOG(note, (a, b), "\")", P{ 1, 2 }.y); }, 3, 0, { "(a, b)", "\"\\\")\"", "P{ 1, 2 }.y" }, { "6", "\")", "2" } },
{ [] { CE_LOG(note, (a, b), "\")", "\")"); }, 3, 0, { "(a, b)", "\"\\\")\"", "\"\\\")\"" }, { "6", "\")", "\")" } },
{ [] { CE_LOG(note, (a, b), "\")", '"'); }, 3, 0, { "(a, b)", "\"\\\")\"", "'\"'" }, { "6", "\")", "\"" } },
{ [] { CE_LOG(note, (a, b), '"', "x,y"); }, 3, 0, { "(a, b)", "'\"'", "\"x,y\"" }, { "6", "\"", "x,y" } },
{ [] { CE_LOG(note, (a, b), '"', hit()); }, 3, 1, { "(a, b)", "'\"'", "hit()" }, { "6", "\"", "7" } },
{ [] { CE_LOG(note, (a, b), '"', (a, b)); }, 3, 0, { "(a, b)", "'\"'", "(a, b)" }, { "6", "\"", "6" } },
{ [] { CE_LOG(note, (a, b), '"', P{ 1, 2 }.y); }, 3, 0, { "(a, b)", "'\"'", "P{ 1, 2 }.y" }, { "6", "\"", "2" } },
{ [] { CE_LOG(note, (a, b), '"', "\")"); }, 3, 0, { "(a, b)", "'\"'", "\"\\\")\"" }, { "6", "\"", "\")" } },
{ [] { CE_LOG(note, (a, b), '"', '"'); }, 3, 0, { "(a, b)", "'\"'", "'\"'" }, { "6", "\"", "\"" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, "x,y", "x,y"); }, 3, 0, { "P{ 1, 2 }.y", "\"x,y\"", "\"x,y\"" }, { "2", "x,y", "x,y" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, "x,y", hit()); }, 3, 1, { "P{ 1, 2 }.y", "\"x,y\"", "hit()" }, { "2", "x,y", "7" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, "x,y", (a, b)); }, 3, 0, { "P{ 1, 2 }.y", "\"x,y\"", "(a, b)" }, { "2", "x,y", "6" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, "x,y", P{ 1, 2 }.y); }, 3, 0, { "P{ 1, 2 }.y", "\"x,y\"", "P{ 1, 2 }.y" }, { "2", "x,y", "2" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, "x,y", "\")"); }, 3, 0, { "P{ 1, 2 }.y", "\"x,y\"", "\"\\\")\"" }, { "2", "x,y", "\")" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, "x,y", '"'); }, 3, 0, { "P{ 1, 2 }.y", "\"x,y\"", "'\"'" }, { "2", "x,y", "\"" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, hit(), "x,y"); }, 3, 1, { "P{ 1, 2 }.y", "hit()", "\"x,y\"" }, { "2", "7", "x,y" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, hit(), hit()); }, 3, 2, { "P{ 1, 2 }.y", "hit()", "hit()" }, { "2", "7", "7" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, hit(), (a, b)); }, 3, 1, { "P{ 1, 2 }.y", "hit()", "(a, b)" }, { "2", "7", "6" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, hit(), P{ 1, 2 }.y); }, 3, 1, { "P{ 1, 2 }.y", "hit()", "P{ 1, 2 }.y" }, { "2", "7", "2" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, hit(), "\")"); }, 3, 1, { "P{ 1, 2 }.y", "hit()", "\"\\\")\"" }, { "2", "7", "\")" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, hit(), '"'); }, 3, 1, { "P{ 1, 2 }.y", "hit()", "'\"'" }, { "2", "7", "\"" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, (a, b), "x,y"); }, 3, 0, { "P{ 1, 2 }.y", "(a, b)", "\"x,y\"" }, { "2", "6", "x,y" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, (a, b), hit()); }, 3, 1, { "P{ 1, 2 }.y", "(a, b)", "hit()" }, { "2", "6", "7" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, (a, b), (a, b)); }, 3, 0, { "P{ 1, 2 }.y", "(a, b)", "(a, b)" }, { "2", "6", "6" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, (a, b), P{ 1, 2 }.y); }, 3, 0, { "P{ 1, 2 }.y", "(a, b)", "P{ 1, 2 }.y" }, { "2", "6", "2" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, (a, b), "\")"); }, 3, 0, { "P{ 1, 2 }.y", "(a, b)", "\"\\\")\"" }, { "2", "6", "\")" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, (a, b), '"'); }, 3, 0, { "P{ 1, 2 }.y", "(a, b)", "'\"'" }, { "2", "6", "\"" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, P{ 1, 2 }.y, "x,y"); }, 3, 0, { "P{ 1, 2 }.y", "P{ 1, 2 }.y", "\"x,y\"" }, { "2", "2", "x,y" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, P{ 1, 2 }.y, hit()); }, 3, 1, { "P{ 1, 2 }.y", "P{ 1, 2 }.y", "hit()" }, { "2", "2", "7" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, P{ 1, 2 }.y, (a, b)); }, 3, 0, { "P{ 1, 2 }.y", "P{ 1, 2 }.y", "(a, b)" }, { "2", "2", "6" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, P{ 1, 2 }.y, P{ 1, 2 }.y); }, 3, 0, { "P{ 1, 2 }.y", "P{ 1, 2 }.y", "P{ 1, 2 }.y" }, { "2", "2", "2" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, P{ 1, 2 }.y, "\")"); }, 3, 0, { "P{ 1, 2 }.y", "P{ 1, 2 }.y", "\"\\\")\"" }, { "2", "2", "\")" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, P{ 1, 2 }.y, '"'); }, 3, 0, { "P{ 1, 2 }.y", "P{ 1, 2 }.y", "'\"'" }, { "2", "2", "\"" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, "\")", "x,y"); }, 3, 0, { "P{ 1, 2 }.y", "\"\\\")\"", "\"x,y\"" }, { "2", "\")", "x,y" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, "\")", hit()); }, 3, 1, { "P{ 1, 2 }.y", "\"\\\")\"", "hit()" }, { "2", "\")", "7" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, "\")", (a, b)); }, 3, 0, { "P{ 1, 2 }.y", "\"\\\")\"", "(a, b)" }, { "2", "\")", "6" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, "\")", P{ 1, 2 }.y); }, 3, 0, { "P{ 1, 2 }.y", "\"\\\")\"", "P{ 1, 2 }.y" }, { "2", "\")", "2" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, "\")", "\")"); }, 3, 0, { "P{ 1, 2 }.y", "\"\\\")\"", "\"\\\")\"" }, { "2", "\")", "\")" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, "\")", '"'); }, 3, 0, { "P{ 1, 2 }.y", "\"\\\")\"", "'\"'" }, { "2", "\")", "\"" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, '"', "x,y"); }, 3, 0, { "P{ 1, 2 }.y", "'\"'", "\"x,y\"" }, { "2", "\"", "x,y" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, '"', hit()); }, 3, 1, { "P{ 1, 2 }.y", "'\"'", "hit()" }, { "2", "\"", "7" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, '"', (a, b)); }, 3, 0, { "P{ 1, 2 }.y", "'\"'", "(a, b)" }, { "2", "\"", "6" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, '"', P{ 1, 2 }.y); }, 3, 0, { "P{ 1, 2 }.y", "'\"'", "P{ 1, 2 }.y" }, { "2", "\"", "2" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, '"', "\")"); }, 3, 0, { "P{ 1, 2 }.y", "'\"'", "\"\\\")\"" }, { "2", "\"", "\")" } },
{ [] { CE_LOG(note, P{ 1, 2 }.y, '"', '"'); }, 3, 0, { "P{ 1, 2 }.y", "'\"'", "'\"'" }, { "2", "\"", "\"" } },
{ [] { CE_LOG(note, "\")", "x,y", "x,y"); }, 3, 0, { "\"\\\")\"", "\"x,y\"", "\"x,y\"" }, { "\")", "x,y", "x,y" } },
{ [] { CE_LOG(note, "\")", "x,y", hit()); }, 3, 1, { "\"\\\")\"", "\"x,y\"", "hit()" }, { "\")", "x,y", "7" } },
{ [] { CE_LOG(note, "\")", "x,y", (a, b)); }, 3, 0, { "\"\\\")\"", "\"x,y\"", "(a, b)" }, { "\")", "x,y", "6" } },
{ [] { CE_LOG(note, "\")", "x,y", P{ 1, 2 }.y); }, 3, 0, { "\"\\\")\"", "\"x,y\"", "P{ 1, 2 }.y" }, { "\")", "x,y", "2" } },
{ [] { CE_LOG(note, "\")", "x,y", "\")"); }, 3, 0, { "\"\\\")\"", "\"x,y\"", "\"\\\")\"" }, { "\")", "x,y", "\")" } },
{ [] { CE_LOG(note, "\")", "x,y", '"'); }, 3, 0, { "\"\\\")\"", "\"x,y\"", "'\"'" }, { "\")", "x,y", "\"" } },
{ [] { CE_LOG(note, "\")", hit(), "x,y"); }, 3, 1, { "\"\\\")\"", "hit()", "\"x,y\"" }, { "\")", "7", "x,y" } },
{ [] { CE_LOG(note, "\")", hit(), hit()); }, 3, 2, { "\"\\\")\"", "hit()", "hit()" }, { "\")", "7", "7" } },
{ [] { CE_LOG(note, "\")", hit(), (a, b)); }, 3, 1, { "\"\\\")\"", "hit()", "(a, b)" }, { "\")", "7", "6" } },
{ [] { CE_LOG(note, "\")", hit(), P{ 1, 2 }.y); }, 3, 1, { "\"\\\")\"", "hit()", "P{ 1, 2 }.y" }, { "\")", "7", "2" } },
{ [] { CE_LOG(note, "\")", hit(), "\")"); }, 3, 1, { "\"\\\")\"", "hit()", "\"\\\")\"" }, { "\")", "7", "\")" } },
{ [] { CE_LOG(note, "\")", hit(), '"'); }, 3, 1, { "\"\\\")\"", "hit()", "'\"'" }, { "\")", "7", "\"" } },
{ [] { CE_LOG(note, "\")", (a, b), "x,y"); }, 3, 0, { "\"\\\")\"", "(a, b)", "\"x,y\"" }, { "\")", "6", "x,y" } },
{ [] { CE_LOG(note, "\")", (a, b), hit()); }, 3, 1, { "\"\\\")\"", "(a, b)", "hit()" }, { "\")", "6", "7" } },
{ [] { CE_LOG(note, "\")", (a, b), (a, b)); }, 3, 0, { "\"\\\")\"", "(a, b)", "(a, b)" }, { "\")", "6", "6" } },
{ [] { CE_LOG(note, "\")", (a, b), P{ 1, 2 }.y); }, 3, 0, { "\"\\\")\"", "(a, b)", "P{ 1, 2 }.y" }, { "\")", "6", "2" } },
{ [] { CE_LOG(note, "\")", (a, b), "\")"); }, 3, 0, { "\"\\\")\"", "(a, b)", "\"\\\")\"" }, { "\")", "6", "\")" } },
{ [] { CE_LOG(note, "\")", (a, b), '"'); }, 3, 0, { "\"\\\")\"", "(a, b)", "'\"'" }, { "\")", "6", "\"" } },
{ [] { CE_LOG(note, "\")", P{ 1, 2 }.y, "x,y"); }, 3, 0, { "\"\\\")\"", "P{ 1, 2 }.y", "\"x,y\"" }, { "\")", "2", "x,y" } },
{ [] { CE_LOG(note, "\")", P{ 1, 2 }.y, hit()); }, 3, 1, { "\"\\\")\"", "P{ 1, 2 }.y", "hit()" }, { "\")", "2", "7" } },
{ [] { CE_LOG(note, "\")", P{ 1, 2 }.y, (a, b)); }, 3, 0, { "\"\\\")\"", "P{ 1, 2 }.y", "(a, b)" }, { "\")", "2", "6" } },
{ [] { CE_LOG(note, "\")", P{ 1, 2 }.y, P{ 1, 2 }.y); }, 3, 0, { "\"\\\")\"", "P{ 1, 2 }.y", "P{ 1, 2 }.y" }, { "\")", "2", "2" } },
{ [] { CE_LOG(note, "\")", P{ 1, 2 }.y, "\")"); }, 3, 0, { "\"\\\")\"", "P{ 1, 2 }.y", "\"\\\")\"" }, { "\")", "2", "\")" } },
{ [] { CE_LOG(note, "\")", P{ 1, 2 }.y, '"'); }, 3, 0, { "\"\\\")\"", "P{ 1, 2 }.y", "'\"'" }, { "\")", "2", "\"" } },
{ [] { CE_LOG(note, "\")", "\")", "x,y"); }, 3, 0, { "\"\\\")\"", "\"\\\")\"", "\"x,y\"" }, { "\")", "\")", "x,y" } },
{ [] { CE_LOG(note, "\")", "\")", hit()); }, 3, 1, { "\"\\\")\"", "\"\\\")\"", "hit()" }, { "\")", "\")", "7" } },
{ [] { CE_LOG(note, "\")", "\")", (a, b)); }, 3, 0, { "\"\\\")\"", "\"\\\")\"", "(a, b)" }, { "\")", "\")", "6" } },
{ [] { CE_LOG(note, "\")", "\")", P{ 1, 2 }.y); }, 3, 0, { "\"\\\")\"", "\"\\\")\"", "P{ 1, 2 }.y" }, { "\")", "\")", "2" } },
{ [] { CE_LOG(note, "\")", "\")", "\")"); }, 3, 0, { "\"\\\")\"", "\"\\\")\"", "\"\\\")\"" }, { "\")", "\")", "\")" } },
{ [] { CE_LOG(note, "\")", "\")", '"'); }, 3, 0, { "\"\\\")\"", "\"\\\")\"", "'\"'" }, { "\")", "\")", "\"" } },
{ [] { CE_LOG(note, "\")", '"', "x,y"); }, 3, 0, { "\"\\\")\"", "'\"'", "\"x,y\"" }, { "\")", "\"", "x,y" } },
{ [] { CE_LOG(note, "\")", '"', hit()); }, 3, 1, { "\"\\\")\"", "'\"'", "hit()" }, { "\")", "\"", "7" } },
{ [] { CE_LOG(note, "\")", '"', (a, b)); }, 3, 0, { "\"\\\")\"", "'\"'", "(a, b)" }, { "\")", "\"", "6" } },
{ [] { CE_LOG(note, "\")", '"', P{ 1, 2 }.y); }, 3, 0, { "\"\\\")\"", "'\"'", "P{ 1, 2 }.y" }, { "\")", "\"", "2" } },
{ [] { CE_LOG(note, "\")", '"', "\")"); }, 3, 0, { "\"\\\")\"", "'\"'", "\"\\\")\"" }, { "\")", "\"", "\")" } },
{ [] { CE_LOG(note, "\")", '"', '"'); }, 3, 0, { "\"\\\")\"", "'\"'", "'\"'" }, { "\")", "\"", "\"" } },
{ [] { CE_LOG(note, '"', "x,y", "x,y"); }, 3, 0, { "'\"'", "\"x,y\"", "\"x,y\"" }, { "\"", "x,y", "x,y" } },
{ [] { CE_LOG(note, '"', "x,y", hit()); }, 3, 1, { "'\"'", "\"x,y\"", "hit()" }, { "\"", "x,y", "7" } },
{ [] { CE_LOG(note, '"', "x,y", (a, b)); }, 3, 0, { "'\"'", "\"x,y\"", "(a, b)" }, { "\"", "x,y", "6" } },
{ [] { CE_LOG(note, '"', "x,y", P{ 1, 2 }.y); }, 3, 0, { "'\"'", "\"x,y\"", "P{ 1, 2 }.y" }, { "\"", "x,y", "2" } },
{ [] { CE_LOG(note, '"', "x,y", "\")"); }, 3, 0, { "'\"'", "\"x,y\"", "\"\\\")\"" }, { "\"", "x,y", "\")" } },
{ [] { CE_LOG(note, '"', "x,y", '"'); }, 3, 0, { "'\"'", "\"x,y\"", "'\"'" }, { "\"", "x,y", "\"" } },
{ [] { CE_LOG(note, '"', hit(), "x,y"); }, 3, 1, { "'\"'", "hit()", "\"x,y\"" }, { "\"", "7", "x,y" } },
{ [] { CE_LOG(note, '"', hit(), hit()); }, 3, 2, { "'\"'", "hit()", "hit()" }, { "\"", "7", "7" } },
{ [] { CE_LOG(note, '"', hit(), (a, b)); }, 3, 1, { "'\"'", "hit()", "(a, b)" }, { "\"", "7", "6" } },
{ [] { CE_LOG(note, '"', hit(), P{ 1, 2 }.y); }, 3, 1, { "'\"'", "hit()", "P{ 1, 2 }.y" }, { "\"", "7", "2" } },
{ [] { CE_LOG(note, '"', hit(), "\")"); }, 3, 1, { "'\"'", "hit()", "\"\\\")\"" }, { "\"", "7", "\")" } },
{ [] { CE_LOG(note, '"', hit(), '"'); }, 3, 1, { "'\"'", "hit()", "'\"'" }, { "\"", "7", "\"" } },
{ [] { CE_LOG(note, '"', (a, b), "x,y"); }, 3, 0, { "'\"'", "(a, b)", "\"x,y\"" }, { "\"", "6", "x,y" } },
{ [] { CE_LOG(note, '"', (a, b), hit()); }, 3, 1, { "'\"'", "(a, b)", "hit()" }, { "\"", "6", "7" } },
{ [] { CE_LOG(note, '"', (a, b), (a, b)); }, 3, 0, { "'\"'", "(a, b)", "(a, b)" }, { "\"", "6", "6" } },
{ [] { CE_LOG(note, '"', (a, b), P{ 1, 2 }.y); }, 3, 0, { "'\"'", "(a, b)", "P{ 1, 2 }.y" }, { "\"", "6", "2" } },
{ [] { CE_LOG(note, '"', (a, b), "\")"); }, 3, 0, { "'\"'", "(a, b)", "\"\\\")\"" }, { "\"", "6", "\")" } },
{ [] { CE_LOG(note, '"', (a, b), '"'); }, 3, 0, { "'\"'", "(a, b)", "'\"'" }, { "\"", "6", "\"" } },
{ [] { CE_LOG(note, '"', P{ 1, 2 }.y, "x,y"); }, 3, 0, { "'\"'", "P{ 1, 2 }.y", "\"x,y\"" }, { "\"", "2", "x,y" } },
{ [] { CE_LOG(note, '"', P{ 1, 2 }.y, hit()); }, 3, 1, { "'\"'", "P{ 1, 2 }.y", "hit()" }, { "\"", "2", "7" } },
{ [] { CE_LOG(note, '"', P{ 1, 2 }.y, (a, b)); }, 3, 0, { "'\"'", "P{ 1, 2 }.y", "(a, b)" }, { "\"", "2", "6" } },
{ [] { CE_LOG(note, '"', P{ 1, 2 }.y, P{ 1, 2 }.y); }, 3, 0, { "'\"'", "P{ 1, 2 }.y", "P{ 1, 2 }.y" }, { "\"", "2", "2" } },
{ [] { CE_LOG(note, '"', P{ 1, 2 }.y, "\")"); }, 3, 0, { "'\"'", "P{ 1, 2 }.y", "\"\\\")\"" }, { "\"", "2", "\")" } },
{ [] { CE_LOG(note, '"', P{ 1, 2 }.y, '"'); }, 3, 0, { "'\"'", "P{ 1, 2 }.y", "'\"'" }, { "\"", "2", "\"" } },
{ [] { CE_LOG(note, '"', "\")", "x,y"); }, 3, 0, { "'\"'", "\"\\\")\"", "\"x,y\"" }, { "\"", "\")", "x,y" } },
{ [] { CE_LOG(note, '"', "\")", hit()); }, 3, 1, { "'\"'", "\"\\\")\"", "hit()" }, { "\"", "\")", "7" } },
{ [] { CE_LOG(note, '"', "\")", (a, b)); }, 3, 0, { "'\"'", "\"\\\")\"", "(a, b)" }, { "\"", "\")", "6" } },
{ [] { CE_LOG(note, '"', "\")", P{ 1, 2 }.y); }, 3, 0, { "'\"'", "\"\\\")\"", "P{ 1, 2 }.y" }, { "\"", "\")", "2" } },
{ [] { CE_LOG(note, '"', "\")", "\")"); }, 3, 0, { "'\"'", "\"\\\")\"", "\"\\\")\"" }, { "\"", "\")", "\")" } },
{ [] { CE_LOG(note, '"', "\")", '"'); }, 3, 0, { "'\"'", "\"\\\")\"", "'\"'" }, { "\"", "\")", "\"" } },
{ [] { CE_LOG(note, '"', '"', "x,y"); }, 3, 0, { "'\"'", "'\"'", "\"x,y\"" }, { "\"", "\"", "x,y" } },
{ [] { CE_LOG(note, '"', '"', hit()); }, 3, 1, { "'\"'", "'\"'", "hit()" }, { "\"", "\"", "7" } },
{ [] { CE_LOG(note, '"', '"', (a, b)); }, 3, 0, { "'\"'", "'\"'", "(a, b)" }, { "\"", "\"", "6" } },
{ [] { CE_LOG(note, '"', '"', P{ 1, 2 }.y); }, 3, 0, { "'\"'", "'\"'", "P{ 1, 2 }.y" }, { "\"", "\"", "2" } },
{ [] { CE_LOG(note, '"', '"', "\")"); }, 3, 0, { "'\"'", "'\"'", "\"\\\")\"" }, { "\"", "\"", "\")" } },
{ [] { CE_LOG(note, '"', '"', '"'); }, 3, 0, { "'\"'", "'\"'", "'\"'" }, { "\"", "\"", "\"" } },
{ [] { CE_LOG(note, a, f(1, 2), "x,y", ',', hit(), (a, b), arr[f(1, 1)], P{ 1, 2 }.y, "\")", '\'', "(", '"'); }, 12, 1, { "a", "f(1, 2)", "\"x,y\"", "','", "hit()", "(a, b)", "arr[f(1, 1)]", "P{ 1, 2 }.y", "\"\\\")\"", "'\\''", "\"(\"", "'\"'" }, { "5", "3", "x,y", ",", "7", "6", "30", "2", "\")", "'", "(", "\"" } },
