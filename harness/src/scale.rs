//! Sources in which one thing occurs many times, is very long or nested very deep: what a limit, a narrow counter or a
//! shortcut for small inputs would break.
use crate::gen::{self, P};
use crate::tape::Src;

/// One of everything.
const SAMPLER: &str = "# h [t](u)\n\n#### a\n\n###### b\n\na **b _c_ ~~d~~** _e_ ~~f~~ `g` *h* [i](j(k)l) \\*\n\n- a\n - b\n  - c\n+ d\n\n+ a\n - b\n\n\
```rust\nx\n\ny\n```\n\n!! t\n! i\nw **x**\n\ny\n!!\n\n{{k|v}}\n\n![a](b)\n\n![a](b)\n![c](d)\n\n-----\n\n{% t\nz\n\n- a\n%}";

fn cat(n: usize, f: impl Fn(usize) -> String) -> String {
    (0..n).map(f).collect()
}

fn word(n: usize) -> String {
    "abcdefghij".repeat(n / 10 + 1)[..n].to_string()
}

fn coll(n: usize, body: &str) -> String {
    format!("{}{body}{}", cat(n, |i| format!("{{% t{i}\n")), "\n%}".repeat(n))
}

fn nest(n: usize, kind: impl Fn(usize) -> char) -> String {
    cat(n, |i| format!("{}{} i{i}\n", " ".repeat(i), kind(i)))
}

type Family = (usize, fn(usize) -> String);

/// Each with the largest size it is tried with.
const FAMILIES: &[Family] = &[
    // lists
    (320, |n| nest(n, |_| '-')),
    (320, |n| nest(n, |_| '+')),
    (320, |n| nest(n, |i| if i % 2 == 0 { '-' } else { '+' })),
    (160, |n| format!("{}{}", nest(n, |_| '-'), cat(n, |i| format!("{}- u\n", " ".repeat(n - 1 - i))))),
    (160, |n| format!("{}- u\nw\n\nx", nest(n, |_| '+'))),
    (160, |n| coll(1, nest(n, |_| '-').trim_end())),
    (160, |n| format!("{{% t\n{}\n%}}", nest(n, |i| if i % 3 == 0 { '-' } else { '+' }))),
    (1300, |n| cat(n, |i| format!("- i{i}\n"))),
    (1300, |n| cat(n, |i| format!("+ i{i}\n - j\n"))),
    (1300, |n| format!("- a\n{}- b", "w\n".repeat(n))),
    (1300, |n| format!("- a\n {} - b", "w\n ".repeat(n))),
    (1300, |n| cat(n, |i| format!("{} a\n\n", if i % 2 == 0 { '-' } else { '+' }))),
    // collapsibles
    (320, |n| coll(n, "x")),
    (320, |n| coll(n, "")),
    (320, |n| coll(n, SAMPLER)),
    (160, |n| coll(n, nest(5, |_| '-').trim_end())),
    (160, |n| format!("{}\n\n{}", coll(n, "- a\n- b"), coll(n, "!!\na\n!!"))),
    (320, |n| cat(n, |i| format!("{{% t{i}\nx\n%}}\n"))),
    (160, |n| "{% a\n\n".repeat(n)),
    (160, |n| "{% a ".repeat(n)),
    (320, |n| format!("{{% t\n{}%}}", "w\n\n".repeat(n))),
    (1300, |n| format!("{{% {}\nx\n%}}", word(n))),
    // media
    (1300, |n| "![a](b)\n".repeat(n)),
    (1300, |n| "![a](b)\n\n".repeat(n)),
    (1300, |n| format!("{}x", "![a](b)\n".repeat(n))),
    (1300, |n| format!("![{0}]({0})", word(n))),
    (1300, |n| format!("{{{{{0}|{0}}}}}", word(n))),
    (1300, |n| format!("{{{{{0}|{0}}}}}", "w\n".repeat(n))),
    (1300, |n| "{{k|v}}\n".repeat(n)),
    (1300, |n| format!("{{{{k{}}}}}", "|v".repeat(n))),
    // destinations
    (1300, |n| format!("[t]({}{}) x", "(".repeat(n), ")".repeat(n))),
    (1300, |n| format!("[t]({}{}) x", "(a".repeat(n), "b)".repeat(n))),
    (1300, |n| format!("[t]({}{} x)", "(".repeat(n), ")".repeat(n / 2))),
    (1300, |n| format!("![t]({}{})", "(".repeat(n), ")".repeat(n))),
    (1300, |n| format!("[t]({}) x", "()".repeat(n))),
    (1300, |n| format!("[{0}]({0})", word(n))),
    (1300, |n| format!("# [{0}]({0})", "a b\n".repeat(n))),
    // inline nodes
    (1300, |n| "**b** ".repeat(n)),
    (1300, |n| "_b_ ".repeat(n)),
    (1300, |n| "~~b~~ ".repeat(n)),
    (1300, |n| "`b` ".repeat(n)),
    (1300, |n| "*b* ".repeat(n)),
    (1300, |n| "[a](b) ".repeat(n)),
    (1300, |n| format!("# {}", "[a](b) ".repeat(n))),
    (1300, |n| format!("**{}**", "a _b_ ~~c~~ ".repeat(n))),
    (1300, |n| "a **b** _c_ ~~d~~ `e` *f* [g](h)\n".repeat(n / 2)),
    (1300, |n| format!("_{0}_ **{0}** ~~{0}~~ `{0}` *{0}* [{0}]({0})", word(n))),
    (650, |n| format!("_{0}_ **{0}** ~~{0}~~ `{0}` *{0}* [{0}]({0})", "w\n".repeat(n))),
    (1300, |n| format!("_{0}_ **{0}** ~~{0}~~ `{0}` *{0}* [{0}]({0})", "\\*é".repeat(n))),
    (650, |n| format!("a {} b", "[".repeat(n))),
    (650, |n| "**a ".repeat(n)),
    (650, |n| "_a\n\n".repeat(n)),
    (650, |n| "[a](b ".repeat(n)),
    // code
    (1300, |n| format!("```rust\n{}```", "x = 1\n".repeat(n))),
    (1300, |n| format!("```rust\n{}```", "\n".repeat(n))),
    (1300, |n| format!("```\n{}```", "``x\n".repeat(n))),
    (1300, |n| format!("```\na\n{}\n```", "`".repeat(n.max(4)))),
    (1300, |n| format!("```{}\nx\n```", word(n))),
    (1300, |n| format!("```\n{}\n```", word(n))),
    (650, |n| "```\na\n```\n".repeat(n)),
    (320, |n| "```\na\n```x\n\n".repeat(n)),
    // highlights
    (1300, |n| format!("!! t\n! i\n{}!!", "w\n\n".repeat(n))),
    (1300, |n| format!("!!\n{}!!", "w\n".repeat(n))),
    (1300, |n| format!("!! {0}\n! {0}\nx\n!!", word(n))),
    (650, |n| "!! t\na\n!!\n".repeat(n)),
    (160, |n| "!! t\na\n\n".repeat(n)),
    (1300, |n| format!("!!\n{}!!", "!!!\n".repeat(n))),
    // metadata
    (1300, |n| format!("---\n{}---\n\nx", "k: v\n".repeat(n))),
    (1300, |n| format!("---\nk: v\n{}k: v\n---\n\nx", "\n".repeat(n))),
    (1300, |n| format!("---\n{}\n---\n\nx", word(n))),
    (1300, |n| format!("---\n{}---\n\n{SAMPLER}", "-- x\n---- y\n".repeat(n))),
    (1300, |n| format!("---\n{}", "a\n".repeat(n))),
    // many and long blocks
    (1300, |n| "w\n\n".repeat(n)),
    (1300, |n| "w\n".repeat(n)),
    (1300, |n| "w ".repeat(n)),
    (1300, |n| "# h\n\n".repeat(n)),
    (1300, |n| "-----\n".repeat(n)),
    (1300, |n| format!("# {}", "w ".repeat(n))),
    (1300, |n| format!("# {}", "w\n".repeat(n))),
    (1300, |n| format!("a{}b", "\n".repeat(n))),
    (1300, |n| format!("{}a", "\n".repeat(n))),
    (1300, |n| format!("a{}", "\r\n".repeat(n))),
    (60, |n| format!("{SAMPLER}\n\n").repeat(n)),
    (60, |n| SAMPLER.replace('\n', "\r\n").repeat(n)),
    // the same after a lot of text
    (70_000, |n| format!("{}\n\n{SAMPLER}", word(n))),
    (70_000, |n| format!("{}{SAMPLER}", "w\n\n".repeat(n / 3))),
    (70_000, |n| format!("{}\n\n{SAMPLER}", "é".repeat(n / 2))),
    (70_000, |n| format!("{}\n\n{{% t\n{SAMPLER}\n%}}", word(n))),
    (70_000, |n| format!("{SAMPLER}\n\n{}", "word ".repeat(n / 5))),
    (70_000, |n| format!("{} a **b** _c_ ~~d~~ `e` *f* [g](h)", word(n))),
    (70_000, |n| format!("{}a **b** _c_ ~~d~~ `e` *f* [g](h)", "w\n".repeat(n / 2))),
    (70_000, |n| format!("- {}\n- **b**\n - c", word(n))),
    (70_000, |n| format!("{{% t\n{}\n%}}\n\nx", word(n))),
    (70_000, |n| format!("!!\n{}\n!!\n\nx", word(n))),
    // runs
    (1300, |n| cat(20, |i| format!("{}x", ["#", "-", "!", "`", "*", "~", "{", "}", "+", ">", " ", "_", "[", "(", ")", "]", "|", "\\", "\\\n", "%"][i].repeat(n)))),
    (1300, |n| cat(20, |i| format!("{}\n", ["#", "-", "!", "`", "*", "~", "{", "}", "+", ">", " ", "_", "[", "(", ")", "]", "|", "\\", "%}", "{%"][i].repeat(n)))),
    (1300, |n| format!("{}# a", "\\\n".repeat(n))),
    (1300, |n| format!("{}*a", "\\a".repeat(n))),
    (1300, |n| format!("{}*\\a", "日".repeat(n))),
    (1300, |n| format!("{}- a", " ".repeat(n))),
    (1300, |n| cat(13, |i| format!("{}x", ["\r", "\t", "\0", "é", "日", "🤔", "\u{a0}", "\r\n", "\n", ".", "0", "<", "\u{301}"][i].repeat(n)))),
    // many lines
    (70_000, |n| format!("{}**b** `c`", "\n".repeat(n))),
    (70_000, |n| format!("{}\n\n# b", "w\n".repeat(n))),
    (70_000, |n| format!("{}\n- b\n - c\n\n", "\r\n".repeat(n))),
    (70_000, |n| format!("```\n{}```\n\n# b", "\n".repeat(n))),
];

/// More parts in one block than 16 bits can count: what comes before them, a part, what comes after.
const MANY: &[(&str, &str, &str)] = &[
    ("", "- i\n", "- j\n - k\n\nx"),
    ("+ i\n", " - j\n", "+ k"),
    ("", "![a](b)\n", "![c](d)\n\nx"),
    ("!! t\n! i\n", "w\n\n", "x\n!!\n\ny"),
    ("```r\n", "x\n", "```\n\ny"),
    ("{% t\n", "w\n\n", "x\n%}\n\ny"),
    ("# ", "[a](b) ", "c\n\nx"),
    ("", "**b** ", "_c_\n\nx"),
    ("**", "_b_ ", "~~c~~** d"),
    ("", "# h\n\n", "- a\n - b"),
    ("---\n", "k: v\n", "---\n\nx"),
    ("", "{{a|b}}\n", "\n\n# x"),
    ("", "a\\*", "**b**\n\n# x"),
    ("", "{% a\nb\n%}\n", "\n\n# x"),
    ("", "```\n```\n", "\n\n# x"),
];

/// Characters whose runs stand alone, for every length: as a block, a line, and next to a word.
const RUNS: &[&str] = &[
    "#", "-", "!", "`", "*", "~", "{", "}", "+", " ", "_", "[", "]", "(", ")", "|", "\\", "%", "\n", "\r\n", "\r", "\t", "\0", "é", "w",
];
const AROUND: &[(&str, &str)] = &[("", ""), ("", " x"), ("x ", ""), ("x\n", "\nx"), ("x\n\n", "\n\nx"), ("- ", "\n- x"), ("{% x\n", "\n%}")];

const SIZES: &[usize] = &[
    2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 18, 20, 24, 31, 32, 33, 36, 40, 50, 63, 64, 65, 72, 75, 80, 99, 100, 101, 120, 126, 127, 128, 129, 160, 253, 254, 255, 256, 257, 258,
    320, 650, 1024, 1300, 4200, 9000, 70_000,
];

/// Sources of these sizes, and of those that numbers in the code under test suggest.
pub fn sources() -> Vec<String> {
    let mut sizes = SIZES.to_vec();
    sizes.extend(crate::dict::dict().novel_ints.iter().take(24));
    sizes.sort();
    sizes.dedup();
    let mut v = vec![];
    for (max, f) in FAMILIES {
        for n in &sizes {
            // where only the position matters
            if n <= max && (*max < 70_000 || *n > 200 || *n == 75) {
                v.push(f(*n));
            }
        }
    }
    for (before, part, after) in MANY {
        v.push(format!("{before}{}{after}", part.repeat(65_600)));
    }
    for r in RUNS {
        for (before, after) in AROUND {
            for n in (2..=132).chain(sizes.iter().copied().filter(|n| *n > 132 && *n <= 1300)) {
                // every length for what stands alone
                if before.is_empty() && after.is_empty() || sizes.contains(&n) {
                    v.push(format!("{before}{}{after}", r.repeat(n)));
                }
            }
        }
    }
    v
}

/// A random one, of a size among the numbers of the dictionary.
pub fn random(s: &mut Src) -> String {
    let (max, f) = s.pick(FAMILIES);
    let ints = &crate::dict::dict().ints;
    let n = if s.chance(1, 2) { *s.pick(ints) } else { 1 + s.below(70) };
    let mut t = f(n.min(*max).min(1300));
    if s.chance(1, 3) {
        let extra = gen::soup(s, P::Any, 60);
        if s.chance(1, 2) {
            t.push_str(&extra);
        } else {
            t.insert_str(0, &extra);
        }
    }
    t
}

/// Places a character may be in: `@` stands for it.
const PLACES: &[&str] = &[
    "@", "@@", "a@", "@a", "a@b @ c", "a\n@\nb", "a\n\n@\n\nb", "@\n\n@", "a@\n\n@b", "\\@", "a\\@b", "@\\a", "# @", "#@ a", "@# a", "# a@\n\n@# b", "## @[@](@)@",
    "- @", "-@a", "@- a\n@- b", "- a\n@- b\n -@c", "+ a@\n @+ b\n + c@\n\n@", "- a\n\n@\n\n+ b",
    "@**@**@ @_@_@ @~~@~~@ @`@`@ @*@*@ @[@](@)@", "**@_@_@~~@~~@** *@* `@`", "a@*b*@_c_@**d**", "[a@](b@) [@a](@b) [](@)", "[a]@(b) *@*@*", "[a](b@(c)@d)",
    "![@](@)", "@![a](b)", "![a](b)@", "![a](b)\n@![c](d)", "![a@](@b)\n![@c](d@)@", "{{@|@}}", "@{{a|b}}", "{{a|b}}@", "{@{a|b}}", "{{a@|@b}@}",
    "```@\n@\n```", "```a\nb\n@```", "```a\nb\n```@", "@```a\nb\n```", "```a@\n@b@\n```\n@", "``@`\na\n```",
    "!!@\na\n!!", "!! @\n! @\n@\n!!", "!! t\n!@i\na\n!!", "!! t\na\n@!!", "!! t\na\n!!@", "!! t@\n! i@\na@\n\n@b\n!!\n@", "@!! t\na\n!!",
    "{%@a\nb\n%}", "{% @\n@\n%}", "{% a\nb\n@%}", "{% a\nb\n%}@", "@{% a\nb\n%}", "{% a@\n@b\n\nc@\n%}\n@", "{% a\n- b@\n @- c\n%}",
    "-----@", "@-----", "--@---", "a@\n\n-----\n\n@b", "---@\na\n---\n\nb", "---\n@\n---\n\n@", "---\na\n@---\n\nb", "---\na\n---@\n\nb", "@---\na\n---", "---\na@\n@b\n---\n@",
    "a\n@\n\n@\nb", "a \n@ \n b@", " @ ", "\n@", "\r@\r", "\r\n@\r\n", "@\t",
];

/// Every character that some table of characters may treat apart, in every place.
pub fn characters() -> Vec<String> {
    let mut c: Vec<char> = (0u32..0x250)
        .chain(0x2000..0x2070)
        .chain(0xff01..0xff5f)
        .chain([0x300, 0x301, 0x378, 0x37e, 0x3bb, 0x410, 0x5d0, 0x627, 0x660, 0x7ff, 0x800, 0x966, 0xfff, 0x1000, 0x1680, 0x180e, 0x1e9e, 0x20ac, 0x20d0])
        .chain([0x2160, 0x2190, 0x2212, 0x23a1, 0x2460, 0x2500, 0x2605, 0x3000, 0x3001, 0x3002, 0x3042, 0x4e00, 0xac00, 0xd7ff, 0xe000, 0xf8ff, 0xfb01, 0xfe0f])
        .chain([0xfeff, 0xfff9, 0xfffc, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1d7d8, 0x1f1e6, 0x1f468, 0x1f600, 0x1f914, 0x20000, 0xe0001, 0xf0000, 0x10fffd, 0x10ffff])
        .filter_map(char::from_u32)
        .collect();
    c.extend(crate::dict::dict().strings.iter().filter_map(|s| s.chars().next()));
    c.sort();
    c.dedup();
    let mut v = vec![];
    for c in c {
        for p in PLACES {
            v.push(p.replace('@', c.encode_utf8(&mut [0; 4])));
        }
    }
    v
}
