pub open spec fn coding(t: Seq<char>) -> Option<Encoding> {
    if t == "gzip"@ { Some(Encoding::Gzip) } else if t == "deflate"@ { Some(Encoding::Deflate) } else if t == "br"@ { Some(Encoding::Brotli) }
    else if t == "zstd"@ { Some(Encoding::Zstd) } else if t == "identity"@ { Some(Encoding::Identity) } else { None }
}
