#!/usr/bin/env python3
"""Copies the released generic-array to ./generic-array with another representation of
its arrays: [T; N] instead of nested pairs, made without loops. Both are the
same to its users; this one is much cheaper to execute symbolically."""
import glob, os, shutil, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERSION = "0.14.9"
SHORT = [*range(36), 48, 49, 64, 65, 66, 67, 96, 128]
LONG = sorted(({*range(161)} | {*range(168, 1025, 8), 300, 500, 1000}) - {*SHORT})


def sub(t, old, new):
    assert t.count(old) == 1, (t.count(old), old)
    return t.replace(old, new)


def cut(t, first, last, new):
    """Replaces what starts with `first` and ends with `last`."""
    assert t.count(first) == 1, (t.count(first), first)
    i = t.index(first)
    return t[:i] + new + t[t.index(last, i) + len(last):]


def install(tmp, dst):
    """Renames tmp to dst, but leaves an identical copy alone, for cargo's sake."""
    files = lambda d: sorted(os.path.relpath(os.path.join(r, n), d) for r, _, ns in os.walk(d) for n in ns)
    read = lambda *p: open(os.path.join(*p), "rb").read()
    a = files(tmp)
    if os.path.isdir(dst) and a == files(dst) and all(read(tmp, n) == read(dst, n) for n in a):
        shutil.rmtree(tmp)
    else:
        shutil.rmtree(dst, ignore_errors=True)
        os.rename(tmp, dst)


def copy(name, version, tmp):
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    src = glob.glob(f"{home}/registry/src/*/{name}-{version}")
    if not src:
        sys.exit(f"{name} {version} is not in the registry")
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(src[0], tmp, ignore=shutil.ignore_patterns("benches", "tests", ".cargo*", "Cargo.lock"))


def main():
    tmp = os.path.join(HERE, "generic-array.tmp")
    copy("generic-array", VERSION, tmp)

    f = os.path.join(tmp, "src/lib.rs")
    t = open(f).read()
    t = sub(t, "    type ArrayType;\n}", "    type ArrayType;\n\n    #[doc(hidden)]\n"
            "    fn make<F: FnMut(usize) -> T>(f: F) -> Self::ArrayType;\n}")
    t = cut(t, "unsafe impl<T> ArrayLength<T> for UTerm", "\n}\n", "")
    impls = "macro_rules! lengths {\n    ($($l:ident: [$($i:expr),*];)*) => {$(\n" \
            "        unsafe impl<T> ArrayLength<T> for typenum::consts::$l {\n" \
            "            type ArrayType = [T; <Self as Unsigned>::USIZE];\n" \
            "            #[allow(unused_mut, unused_variables)]\n            #[inline(always)]\n" \
            "            fn make<F: FnMut(usize) -> T>(mut f: F) -> Self::ArrayType {\n" \
            "                [$(f($i)),*]\n            }\n        }\n    )*};\n}\n\nlengths! {\n"
    for n in SHORT:
        impls += f"    U{n}: [{', '.join(map(str, range(n)))}];\n"
    impls += "}\n"
    for n in LONG:
        impls += f"unsafe impl<T> ArrayLength<T> for typenum::consts::U{n} {{\n    type ArrayType = [T; {n}];\n" \
                 "    fn make<F: FnMut(usize) -> T>(f: F) -> Self::ArrayType {\n        core::array::from_fn(f)\n    }\n}\n"
    t = cut(t, "unsafe impl<T, N: ArrayLength<T>> ArrayLength<T> for UInt<N, B0>", "\n}\n", impls)
    t = cut(t, "unsafe impl<T, N: ArrayLength<T>> ArrayLength<T> for UInt<N, B1>", "\n}\n", "")
    t = cut(t, "    fn generate<F>(mut f: F) -> GenericArray<T, N>", "\n    }\n",
            "    #[inline(always)]\n    fn generate<F>(f: F) -> GenericArray<T, N>\n    where\n        F: FnMut(usize) -> T,\n    {\n"
            "        GenericArray { data: N::make(f) }\n    }\n")
    t = cut(t, "    fn from_iter<I>(iter: I) -> GenericArray<T, N>", "\n    }\n",
            "    fn from_iter<I>(iter: I) -> GenericArray<T, N>\n    where\n        I: IntoIterator<Item = T>,\n    {\n"
            "        let mut iter = iter.into_iter();\n        GenericArray {\n"
            "            data: N::make(|i| match iter.next() {\n                Some(v) => v,\n"
            "                None => from_iter_length_fail(i, N::USIZE),\n            }),\n        }\n    }\n")
    open(f, "w").write(t)

    f = os.path.join(tmp, "src/impls.rs")
    t = open(f).read()
    t = sub(t, "self.map(Clone::clone)", "Self::generate(|i| self[i].clone())")
    open(f, "w").write(t)
    install(tmp, os.path.join(HERE, "generic-array"))


if __name__ == "__main__":
    main()
