use crate::engine::Prop;
mod c01;
mod cli;
mod docx;
mod files;
mod html;
mod meta;
mod model;
mod notes;
mod stray;
mod words;
mod tokens;
mod tree;
mod verbatim;
pub fn all() -> Vec<Prop> {
    vec![c01::prop(), tokens::prop(), words::prop(), stray::prop(), verbatim::prop(), html::prop(), docx::prop(), notes::c17(), notes::c22(), model::c04(), model::c05(), model::c08(), model::c09(), model::c10(), model::c12(), model::c15(), model::c18(), model::c24(), model::c25(), meta::c11(), meta::c23(), meta::c27(), meta::c29(), files::c13(), files::c14(), files::c16(), files::c26(), cli::c21(), tree::prop()]
}
