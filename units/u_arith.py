TYPES = [("_Bool", "_Bool", "0", "1", 8), ("char", "char", "CHAR_MIN", "CHAR_MAX", 8), ("schar", "signed char", "SCHAR_MIN", "SCHAR_MAX", 8),
         ("uchar", "unsigned char", "0", "UCHAR_MAX", 8), ("short", "short", "SHRT_MIN", "SHRT_MAX", 16), ("ushort", "unsigned short", "0", "USHRT_MAX", 16),
         ("int", "int", "INT_MIN", "INT_MAX", 32), ("uint", "unsigned int", "0", "UINT_MAX", 32),
         ("long", "long", "LONG_MIN", "LONG_MAX", 64), ("ulong", "unsigned long", "0", "ULONG_MAX", 64),
         ("llong", "long long", "LLONG_MIN", "LLONG_MAX", 64), ("ullong", "unsigned long long", "0", "ULLONG_MAX", 64)]
FTYPES = [("float", "float", "-FLT_MAX", "FLT_MAX", 32), ("double", "double", "-DBL_MAX", "DBL_MAX", 64), ("ldouble", "long double", "-LDBL_MAX", "LDBL_MAX", 80)]


def register(U, g):
    A = ["div(), ldiv() and lldiv() compute quotient and remainder as C defines"]
    for n, t, lo, hi, w in TYPES:
        d = ["NAME=" + n, "T=" + t, "TMIN=" + lo, "TMAX=" + hi, "D_T=" + (t if w > 16 and lo == "0" else "unsigned" if lo == "0" else "unsigned" if w < 32 else "unsigned " + t), "U_T=" + (t if lo == "0" else "unsigned " + t.replace("signed ", ""))]
        signed = lo != "0"
        for op in ("add", "sub"):
            U("A01", "%s_%s" % (op, n), "mod_arith.c", "h_" + op, ["%s_%s_tx" % (op, n)], unwind=2, inc=["arithmetic"], defs=d, assume=A, flags=["--signed-overflow-check"])
        for v in (["", "_minus1"] if signed else [""]):
            U("A01", "div_%s%s" % (n, v), "mod_arith.c", "h_div", ["div_%s_tx" % n], unwind=2, inc=["arithmetic"], defs=d + (["MINUS1"] if v else []), assume=A, solver="cvc5" if w > 8 else None, flags=["--signed-overflow-check"])
        U("A01", "mul_%s" % n, "mod_arith.c", "h_mul", ["mul_%s_tx" % n], unwind=2, inc=["arithmetic"], defs=d + (["DIVLEMMA"] if w > 8 else []) + (["NOERR"] if n == "_Bool" else []), assume=A, solver="cvc5" if w > 8 else None)
    for n, t, lo, hi, w in FTYPES:
        d = ["NAME=" + n, "T=" + t, "TMIN=" + lo, "TMAX=" + hi, "IS_F"]
        for op in ("add", "sub", "mul", "div"):
            if w == 80 and op in ("mul", "div"):
                U("A01", "%s_%s" % (op, n), "mod_arith.c", "h_" + op, ["%s_%s_tx" % (op, n)], unwind=257, inc=["arithmetic"], defs=d + ["FEW"], kind="bounded",
                  bound="long double products and quotients of 16 x 16 sample operands", assume=["long double has the CBMC format (IEEE binary128) instead of x87's"])
                continue
            U("A01", "%s_%s" % (op, n), "mod_arith.c", "h_" + op, ["%s_%s_tx" % (op, n)], unwind=2, inc=["arithmetic"], defs=d, solver="z3" if w == 80 else "cvc5", flags=["--fpa"] if w == 80 else [],
              assume=["long double has the CBMC format (IEEE binary128) instead of x87's"] if w == 80 else [])
    U("A01", "lemma_mul", "mod_lemma.c", "h_mul_magnitude", ["lemma: a > m / b if and only if a * b > m, over the mathematical integers"], unwind=2, solver="cvc5")
    names = [x[0] for x in TYPES] + [x[0] for x in FTYPES]
    for n, t, lo, hi, w in TYPES:
        U("A02", n, "mod_cast.c", "h_cast", ["cast_%s_to_%s_tx" % (n, m) for m in names if m != n], unwind=2, inc=["cast"],
          defs=["SNAME=" + n, "S=" + t, "S_" + n])
    for n, t, lo, hi, w in FTYPES:
        U("A02", n, "mod_cast.c", "h_cast", ["cast_%s_to_%s_tx" % (n, m[0]) for m in FTYPES if m[0] != n], unwind=2, inc=["cast"],
          defs=["SNAME=" + n, "S=" + t, "S_" + n, "FP"])
