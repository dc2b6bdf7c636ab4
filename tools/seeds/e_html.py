import os
import importlib.util
_s = importlib.util.spec_from_file_location("b_core", os.path.join(os.path.dirname(__file__), "b_core.py"))
B = importlib.util.module_from_spec(_s)
_s.loader.exec_module(B)
HE = "crates/vertigo-cli/src/serve/html/html_element.rs"
RENDER = '''use html::html_element::HtmlElement;
fn t(s: &str) -> HtmlNode { HtmlNode::Text(s.into()) }
fn c(s: &str) -> HtmlNode { HtmlNode::Comment(s.into()) }
fn e(name: &str) -> HtmlElement { HtmlElement::new(name) }
fn check(node: HtmlElement, format: bool, part: &str) {
    let s = HtmlDocument::new(HtmlNode::Element(node)).convert_to_string(format);
    if !s.contains(part) { eprintln!("{s} does not contain {part}"); std::process::exit(1) }
}
'''
SEEDS = [
 dict(id="html-text-fast-path", prop="C06",
  edits=[(HE, """                        } else {
                            encode_safe(&text)
                        };""", """                        } else if text.contains(['<', '>']) {
                            encode_safe(&text)
                        } else {
                            // nothing here that could be taken for a tag
                            Cow::from(text)
                        };""")],
  needs="a text with a character reference in it and no angle bracket", breaks="the text `&lt;b&gt;` is shown as `<b>`",
  deps=B.HTML_DEPS, main=B.HTML + RENDER + '''fn main() {
    check(e("p").child(t("a &lt; b")), true, "&amp;lt;");
    check(e("p").child(t("a &lt; b")).child(HtmlNode::Element(e("b"))), true, "&amp;lt;");
}
'''),
 dict(id="html-comment-splits-text", prop="C06",
  edits=[(HE, """            HtmlNode::Comment(_) => {}
            element => {""", """            HtmlNode::Comment(_) => {
                // the text before a comment is a text of its own
                if let Some(text) = last_text_get(&mut last_text) {
                    result.push(HtmlNode::Text(text));
                }
            }
            element => {""")],
  needs="two texts with a comment between them (where a value is mounted) in the indented form", breaks="a line break comes into the middle of a word",
  deps=B.HTML_DEPS, main=B.HTML + RENDER + '''fn main() {
    let d = || e("p").child(t("12")).child(c("v")).child(t("%"));
    check(d(), false, "12%");
    check(d(), true, "12%");
}
'''),
 dict(id="html-raw-by-exact-name", prop="C06",
  edits=[(HE, """                        if ["script", "style"].contains(&element.name.to_lowercase().as_str()) {""", """                        if ["script", "style"].contains(&element.name.as_str()) {""")],
  needs="a style element whose name is not in lower case", breaks="its contents are escaped, which the browser does not undo",
  deps=B.HTML_DEPS, main=B.HTML + RENDER + '''fn main() {
    check(e("STYLE").child(t(".a > .b {}")), true, ".a > .b {}");
    check(e("style").child(t(".a > .b {}")), true, ".a > .b {}");
}
'''),
 dict(id="html-attr-value-trimmed", prop="C06",
  edits=[(HE, """            encode_quoted_attribute(&value)
""", """            encode_quoted_attribute(value.trim_end())
""")],
  needs="an attribute value that ends in a blank", breaks="the value is served without it",
  deps=B.HTML_DEPS, main=B.HTML + RENDER + '''fn main() {
    check(e("input").attr("value", " a "), true, "value=\\" a \\"");
}
'''),
]
