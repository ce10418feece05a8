"""More oracles for design.py"""
O = {
"C34": "Reference table finder over the lines of the document; byte equality of the text fed to the parser.",
"C35": "Reference encoder over characters; byte equality.",
"C36": "Reference base64 and attribute reader, files in the in-memory file system; byte equality.",
"C37": "Per pass an independent reference (words and visible length, element names, footnote prefixes); byte equality; the hash by comparing two runs that differ in one byte.",
"C38": "Reference scanners with their own notion of verbatim text; byte equality of the text fed to the parser.",
"C39": "Trees built by the parser stand-in; reference merge of the block sequence; equality of the serialised tree.",
"C40": "Reference reader of citation syntax with its own verbatim rules, and reference formatting; byte equality after both passes (the placeholder between them is not looked at), the recorded keys in order.",
"C41": "Files written by the harness from known fields in every value syntax, field equality; for arbitrary and truncated text memory safety and registry consistency.",
"C42": "An independent JSON reader turns the output into the same serialised form as the tree (equality), and the tree read back is serialised again (equality); filter output in the harness's own layouts against known trees; cut-off and arbitrary text for rejection and memory safety.",
"C43": "Kernel model with a symbolic schedule: no call may block while the command is blocked or gone, no write without SIGPIPE protection; received bytes against the expected JSON (independent reader), result against the command's output and ending, descriptors, reaping and virtual time on return. Filters: reference fold over the outcomes.",
"C44": "Reference order, shadowing and selection over the generated manifests; reference global replacement with a matcher on absolute positions; environment recorded at each command and compared afterwards.",
"C45": "Trees built with symbolic content are written and read by an independent Markdown reader (CommonMark and GFM tables, strikethrough); both trees are serialised (neighbouring texts merged) and compared. Native replays read with the real cmark-gfm instead, which also validates the reader on every sampled path.",
"C46": "Independent scan of the HTML for code blocks; recorded command split by a shell-word reader and compared with tool, options and language, recorded input with the decoded code; output HTML compared with blocks replaced by the stand-in's answer.",
"C47": "Independent reading of the index or summary gives the expected bytes; output streams are captured on a medium of limited room (written at once or on flush), exit status compared.",
"C48": "Recorded conversion call: text length and bytes; front matter parsed by a strict YAML reader written for the harness and by the real fallback reader, both compared with the merge of the generated sources; output streams as in C47.",
"C49": "Table of flags with the fields and values they set, applied to a symbolic default option block (one symbolic bit per boolean); recorded option block compared field by field. Filter commands are split by a shell-word reader. Reference wrapping by characters.",
"C50": "Commands passed to system() are split by a shell-word reader that rejects any active character, then act on an abstract file system (rm, mkdir, mv, cp, chmod, git clone with its refusals); the state afterwards is compared with the one before, but for the one entry the specification names; clones, prompts and hooks are recorded.",
"C51": "Directory text generated together with the expected listing (members permuted, escapes and brackets in texts, decoys nested or in texts); captured output compared byte for byte. Lookup through a recorded clone.",
"C52": "All real text stages run in sequence behind the real driver; the bytes the parser stand-in is fed are compared with the document (constructs of every extension, with an arbitrary byte, in nine kinds of code). The same for code elements in HTML given to the finishing stages. Which text is code is decided for the single stages (C05-C09, C19-C23) by one reference reader in harness/code.h, written against the CommonMark rules.",
}
