//! Fixed sources tried first: minimal forms of the defects found (and repaired) in this tree and other delicate ones.
pub const SEEDS: &[&str] = &[
    "",
    "a",
    "\\",
    "\\\\",
    "a\\",
    "\n",
    "\n\n",
    "\r\n",
    "\r",
    "~~a\n\\\nb~~",
    "_a\\\n\nb_",
    "# \\[a](b)",
    "# \\ a",
    "\\## a",
    "\\![a](b)",
    "a\\\n\n\nb",
    "{% t\n\n%}",
    "{%\n%}",
    "{% a\n{% b\n%}\n%}",
    "{% a\n{% b\n%}",
    "!!\n\n!!",
    "!! t\n! i\n\n!!",
    "!!\n!!",
    "- a\n\\- b",
    "- a\n \\+ b",
    "- a\n  \\- b",
    "---\n\\\\---\n---",
    "---\n\\---\n---",
    "{{a\n\nb|c}}",
    "---\r\na\r\n---\r\n\r\nb",
    "```\r\na\r\n```",
    "- a\r\n- b",
    "!!\r\na\r\n!!",
    "```\n\n```",
    "```\n```",
    "``` \n```",
    "```rust\n\na\n```",
    "-----![a](b)",
    "-----a",
    "!!\na\n!!b",
    "![a](b)\n![c](d)",
    "![a](b)\nc",
    "![a](b(c)d(e",
    "[a](b(c",
    "**a _b_ ~~c~~ d**",
    "***a***",
    "****",
    "__",
    "~~~~",
    "``",
    "- a\n - b\n  - c\n - d\n- e",
    "+ a\n - b\n+ c",
    "- a\n+ b",
    "- a\n + b\n - c",
    "- `one\n- two`",
    "- a\n\n- b",
    "{% a\n- x\n%}",
    "{% a\n```\n%}\n```\n%}",
    "{% a\n{{b|c\n%}\n}}",
    "{% a\n![b](c\n%}\n)",
    "{% a\n# x\n%}\ny",
    "{%  a\n%}",
    "###### a",
    "####### a",
    "# a\nb\n\nc",
    "a\n\n\nb",
    "a\n\n\n\nb",
    "%}",
    "\n%}",
    "a\n%}",
    "{% a\nb\n\n%}",
    "🤔\\🤔**🤔**\n🤔",
];
