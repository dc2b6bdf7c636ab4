// ---- the answer and its parts ----------------------------------------------------------------------------------------------
enum StatusCode { OK, INTERNAL_SERVER_ERROR }
//@file crates/vertigo-cli/src/serve/response_state.rs
//@item enum ContentType
enum ContentType {
    Plain,
    Html
}
//@end
//@item struct ResponseState
struct ResponseState {
    pub status: StatusCode,
    pub content_type: ContentType,
    pub body: String,
}
//@end
#[verifier::external_body]
fn vx_text(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
spec fn is_error(r: ResponseState) -> bool { r.status == StatusCode::INTERNAL_SERVER_ERROR && r.content_type == ContentType::Plain }
impl ResponseState {
//@item impl ResponseState :: fn html
    pub fn html(body: ⟦impl Into<String>⇒String⟧) -> «(r:» Self «)
        ensures r.status == StatusCode::OK, r.content_type == ContentType::Html, r.body == body,»
    {
        Self {
            status: StatusCode::OK,
            content_type: ContentType::Html,
            body: body⟦.into()⇒⟧,
        }
    }
//@end
//@item impl ResponseState :: fn plain
    pub fn plain(body: ⟦impl Into<String>⇒String⟧) -> «(r:» Self «)
        ensures r.status == StatusCode::OK, r.content_type == ContentType::Plain, r.body == body,»
    {
        Self {
            status: StatusCode::OK,
            content_type: ContentType::Plain,
            body: body⟦.into()⇒⟧,
        }
    }
//@end
//@item impl ResponseState :: fn internal_error
    pub fn internal_error(body: ⟦impl Into<String>⇒String⟧) -> «(r:» Self «)
        ensures is_error(r), r.body == body,»
    {
        Self {
            status: StatusCode::INTERNAL_SERVER_ERROR,
            content_type: ContentType::Plain,
            body: body⟦.into()⇒⟧,
        }
    }
//@end
}
//@file crates/vertigo-cli/src/serve/mount_path.rs
//@item struct MountPathConfig
struct MountPathConfig {
    public_path: String,
    dest_dir: String,
    pub run_js: String,
    pub wasm_path: String,
}
//@end
#[verifier::external_body]
struct AllElements { _x: u8 }
impl AllElements {
    // the commands it was fed with; what tree they make is C05
    uninterp spec fn view(&self) -> Seq<DomCommand>;
    #[verifier::external_body]
    fn new() -> (r: AllElements) ensures r@ == Seq::<DomCommand>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn feed(&mut self, commands: Vec<DomCommand>) ensures final(self)@ == old(self)@ + commands@ { unimplemented!() }
}
uninterp spec fn is_page(c: Seq<DomCommand>, mount: MountPathConfig, env: Map<String, String>, r: ResponseState) -> bool;
impl HtmlResponse {
    #[verifier::external_body]
    fn build_response(&self) -> (r: ResponseState)
        ensures is_page(self.all_elements@, self.mount_path, self.env@, r),
    { unimplemented!() }
}
