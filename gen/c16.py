"""C16, part B: enums that derive Scalar; generated, compiled and compared with their declaration order."""

import genlib

BOUND = "derived enums of 1..40, 63..66, 127..130, 254..258, 300 (thorough 1000, 4096, 65535..65537) variants; every order of up to 4 declared names against every derive order; visibilities, attributes, representations, raw and non-ASCII names, names that shadow prelude items, 13 kinds of names in the scope, const-generic enums, macro-made enums; index of every variant, all pairs of variants ordered (up to 258), and scalar maps/sets over all variants"


def enum(names, attrs="", vis="pub ", head="enum E", ty="E", pre="", vattr=None):
    ds = "#[derive(Scalar, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]"
    vs = ", ".join((vattr[i % len(vattr)] if vattr else "") + n for i, n in enumerate(names))
    items = "%s\n%s%s\n%s%s { %s }\n" % (pre, ds, attrs, vis, head, vs)
    e = ty.split("<")[0]
    all_ = "const ALL: &[%s] = &[%s];\n" % (ty, ", ".join(e + "::" + n for n in names))
    n = len(names)
    run = "pub fn run(o: &mut Obs) -> R { gp::indices(o, ALL%s) }" % ""
    return items + all_ + run


def cases(tier):
    deep = tier == "thorough"
    out = []
    sizes = list(range(1, 41)) + [63, 64, 65, 66, 127, 128, 129, 130, 254, 255, 256, 257, 258, 300] + ([1000, 4096, 65535, 65536, 65537] if deep else [1000])
    for n in sizes:
        out.append(("variant count", "enum with %d variants" % n, enum(["V%d" % i for i in range(n)])))
        if n <= 300:
            out.append(("variant count", "enum with %d variants, names in reverse order" % n, enum(["V%05d" % (n - i) for i in range(n)], attrs="\n#[repr(u16)]")))
    import itertools
    for k in range(1, 5):
        for p in itertools.permutations("ABCD", k):
            out.append(("declaration order", "variants " + " ".join(p), enum(list(p))))
    for vis in ("", "pub ", "pub(crate) ", "pub(super) ", "pub(in super) "):
        out.append(("forms", "visibility " + vis, enum(["A", "B", "C"], vis=vis) if vis in ("pub ",) else enum(["A", "B", "C"], vis=vis)))
    for at in ("#[repr(u8)]", "#[repr(i64)]", "#[repr(C)]", "#[non_exhaustive]", "/// doc", "#[allow(dead_code)]\n#[doc = \"x\"]", "#[repr(isize)]\n#[must_use]"):
        out.append(("forms", "attribute " + at, enum(["A", "B", "C", "D"], attrs="\n" + at)))
    out.append(("forms", "variant attributes", enum(["A", "B", "C", "D"], vattr=["/** doc */ ", "#[allow(dead_code)] ", "#[doc(hidden)] "])))
    for names in (["r#type", "r#match", "r#fn"], ["Été", "Naïve", "漢"], ["Some", "None", "Ok", "Err"], ["usize", "u8", "E_", "Scalar"], ["index", "_self", "other"], ["_A", "__", "A_"], ["A0", "A1", "A10", "A2"]):
        out.append(("forms", "names " + " ".join(names), enum(names)))
    for nm in ("r#type", "Scalar_", "Größe", "usize_", "Option2"):
        out.append(("forms", "enum named " + nm, enum(["A", "B", "C"], head="enum " + nm, ty=nm)))
    out.append(("forms", "const-generic enum", enum(["A", "B", "C"], head="enum G<const N: usize>", ty="G<7>")))
    out.append(("forms", "const-generic enum with where clause", enum(["A", "B"], head="enum G<const N: usize> where [(); 1]: Sized", ty="G<0>")))
    out.append(("forms", "made by macro_rules", "macro_rules! mk { ($n:ident $($v:ident)*) => { #[derive(Scalar, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)] pub enum $n { $($v),* } const ALL: &[$n] = &[$($n::$v),*]; } }\nmk!(Mk Z Y X W V U T S R);\npub fn run(o: &mut Obs) -> R { gp::indices(o, ALL) }"))
    out.append(("forms", "cfg'd-out variant", "#[derive(Scalar, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)] pub enum E { A, #[cfg(any())] Gone, B, C }\nconst ALL: &[E] = &[E::A, E::B, E::C];\npub fn run(o: &mut Obs) -> R { gp::indices(o, ALL) }"))
    out.append(("forms", "inside a function, prelude shadowed", "pub fn run(o: &mut Obs) -> R { #[derive(Scalar, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)] enum E { A, B } const ALL: &[E] = &[E::A, E::B]; gp::indices(o, ALL) }"))
    # what else the scope may hold
    der = "#[derive(::frozen_collections::Scalar, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]"
    for what, decl, inner in (
        ("nothing imported", "", ""),
        ("a module frozen_collections", "mod frozen_collections {}", ""),
        ("a module frozen_collections_core", "mod frozen_collections_core {}", ""),
        ("modules core, std, alloc", "mod core {} mod std {} mod alloc {}", ""),
        ("a trait Scalar", "pub trait Scalar { fn index(&self) -> u8; }", ""),
        ("another trait with the method", "pub trait Other { fn index(&self) -> u8; } impl Other for E { fn index(&self) -> u8 { 77 } }", ""),
        ("a method of the type with the name", "impl E { pub fn index(&self) -> u8 { 77 } }", ""),
        ("constants named like the variants", "pub const A: u8 = 1; pub const B: u8 = 2;", ""),
        ("variants in scope", "use self::E::*;", ""),
        ("functions named index and from", "pub fn index() {} pub fn from() {} pub fn discriminant() {}", ""),
        ("types named like the prelude's", "pub struct Option; pub struct Some; pub struct None; pub struct Result; pub struct Self_;", ""),
        ("macros named like the prelude's", "macro_rules! matches { () => {} } macro_rules! unreachable { () => {} } macro_rules! panic { () => {} } macro_rules! vec { () => {} }", ""),
        ("a lifetime and type of one letter", "pub struct T; pub struct S; pub struct K; pub struct V;", ""),
    ):
        for k in (1, 2, 3, 9):
            vs = "ABCDEFGHI"[:k]
            out.append(("scope", "%d variants, %s" % (k, what), "pub mod bare { %s\n%s pub enum E { %s } }\nuse bare::E;\nconst ALL: &[E] = &[%s];\npub fn run(o: &mut Obs) -> R { gp::indices(o, ALL) }" % (decl, der, ", ".join(vs), ", ".join("E::" + v for v in vs))))
    return out


def explore(d, tier):
    rs = []
    for ed in ("2024", "2021", "2018"):
        cs = cases(tier)
        if ed != "2024":
            cs = [(s, t + " [edition %s]" % ed, i) for s, t, i in cs if s != "variant count" or "with 4 variants" in t]
        rs.append(genlib.explore(d, "C16", tier, cs, BOUND if ed == "2024" else "the same forms, edition " + ed, timeout=800 if tier == "quick" else 3600, tag="" if ed == "2024" else "s" + ed, edition=ed))
        if rs[-1]["violations"]:
            break
    return genlib.merge(rs)
