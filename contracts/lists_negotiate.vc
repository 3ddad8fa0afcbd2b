//@ # P09: the entries of Accept, Accept-Encoding and TE, iterated; the names of the negotiation headers.
use vstd::prelude::*;
verus! {
//@ include seq_iters.inc
//@ include header_consts.inc
// the entries are only passed on
pub struct MediaTypeProposal(u8);
pub struct EncodingProposal(u8);
//@ include list_iters.inc MOD=accept FILE=src/content/accept.rs T=Accept F=entries E=MediaTypeProposal
//@ include list_iters.inc MOD=accept_encoding FILE=src/content/accept_encoding.rs T=AcceptEncoding F=entries E=EncodingProposal
//@ include list_iters.inc MOD=te FILE=src/transfer/te.rs T=TE F=entries E=EncodingProposal
//@ include header_name.inc MOD=accept FILE=src/content/accept.rs T=Accept CONST=ACCEPT TEXT=accept
//@ include header_name.inc MOD=ae FILE=src/content/accept_encoding.rs T=AcceptEncoding CONST=ACCEPT_ENCODING TEXT=accept-encoding
//@ include header_name.inc MOD=te FILE=src/transfer/te.rs T=TE CONST=TE TEXT=te
//@ include header_name.inc MOD=ce FILE=src/content/content_encoding.rs T=ContentEncoding CONST=CONTENT_ENCODING TEXT=content-encoding
//@ include header_name.inc MOD=trenc FILE=src/transfer/transfer_encoding.rs T=TransferEncoding CONST=TRANSFER_ENCODING TEXT=transfer-encoding
pub mod headers { pub use super::name_te::TE; }
}
fn main() {}
