//! P22: whatever a reader does with a document, nothing it built stays behind.
use fvl::ctx::*;
use fvl::jref;
use fvl::model::*;
use crate::{json, msgpack, toml, url, yaml};
use fvl::zoo::ZOO;
use fvl::{bail, cov, mref};

type De = fn(&[u8]) -> Result<Result<MV, String>, String>;
/// the document is read under the allocation and drop ledgers; the outcome itself is not judged here
fn feed(c: &mut Ctx, fmt: &str, ty: T, de: De, doc: &[u8], kind: &str) {
    let text = match std::str::from_utf8(doc) {
        Ok(s) if doc.len() <= 3000 => s.to_string(),
        _ => doc[..doc.len().min(1000)].escape_ascii().to_string(),
    };
    c.case(&format!("{fmt}-{kind}/{}", (ty.tn)()), &text, || {
        match de(doc) {
            Err(p) => bail!("panic", "{p}"), // other properties judge this
            Ok(Ok(_)) => cov!("documents read"),
            Ok(Err(_)) => match fmt {
                "json" => cov!("failed JSON deserialisations"),
                "msgpack" => cov!("failed MessagePack deserialisations"),
                "toml" => cov!("failed TOML deserialisations"),
                "yaml" => cov!("failed YAML deserialisations"),
                _ => cov!("failed URL-encoded deserialisations"),
            },
        }
        Ok(())
    });
}
pub fn p22(c: &mut Ctx) {
    c.behaviour = false;
    c.check_leaks = true;
    let mut jt = json::readable('j');
    jt.extend(json::extra_w());
    // types whose fields count their drops
    let toks: Vec<T> = ZOO.iter().map(|(t, _)| *t).filter(|t| (t.tn)().starts_with("Tok")).collect();
    let mt = msgpack::types();
    let (tt, yt, ut) = (toml::types('t'), toml::types('y'), toml::types('u'));
    let mut n = 0u64;
    while c.time_left() {
        n += 1;
        let mut r = c.rng(n);
        let d = r.range(0, 3);
        match r.below(6) {
            // the readers with a parser of their own beneath
            k @ 0..=2 => {
                let fmt = ["toml", "yaml", "url"][k];
                let ts = &[&tt, &yt, &ut][k];
                let ty = if k == 0 && r.chance(1, 3) { *r.pick(&toks) } else { *r.pick(ts) };
                let (de, doc): (De, String) = match k {
                    0 => (ty.de_toml, toml::arb_doc(ty, &mut r, d).1),
                    1 => (ty.de_yaml, yaml::arb_doc(ty, &mut r, d).1),
                    _ => (ty.de_url, url::arb_doc(ty, &mut r, d)),
                };
                let cuts: Vec<usize> = doc.char_indices().map(|x| x.0).collect();
                if cuts.is_empty() || r.chance(3, 4) {
                    feed(c, fmt, ty, de, doc.as_bytes(), "read");
                } else if doc.len() < 300 && r.chance(1, 4) {
                    for i in cuts {
                        feed(c, fmt, ty, de, doc[..i].as_bytes(), "cut");
                    }
                    cov!("documents cut everywhere");
                } else {
                    // one token replaced, at a few places
                    let t = *r.pick(&["null", "}", "]", "{}", "\"x\"", "17", "[", "1e99", ",", ":", "-1", "=", "&", "\n", "%", "true"]);
                    for _ in 0..8 {
                        let i = *r.pick(&cuts);
                        let mut d2 = doc.clone();
                        let e = i + d2[i..].chars().next().map_or(0, char::len_utf8);
                        d2.replace_range(i..e, t);
                        feed(c, fmt, ty, de, d2.as_bytes(), "token");
                    }
                }
            }
            3 | 4 => {
                let ty = if r.chance(1, 2) { *r.pick(&toks) } else { *r.pick(&jt) };
                let m = arb_mv(ty, &mut r, d);
                let mut j = jref::tree(ty, &m, &mut r);
                if r.chance(1, 2) {
                    let mut names = vec![];
                    jref::names(ty, &mut names, 4);
                    for _ in 0..r.range(1, 3) {
                        jref::mutate(&mut j, &mut r, &names);
                    }
                }
                let style = r.below(3) as u8;
                let mut doc = String::new();
                jref::render(&j, &mut r, style, &mut doc);
                let mut doc = doc.into_bytes();
                match r.below(4) {
                    0 if doc.len() < 600 => {
                        for k in 0..doc.len() {
                            feed(c, "json", ty, ty.de_json, &doc[..k], "cut");
                        }
                        cov!("documents cut everywhere");
                    }
                    1 if doc.len() < 300 => {
                        // one token replaced, at every place
                        let t: &[u8] = *r.pick(&[&b"null"[..], b"}", b"]", b"{}", b"\"x\"", b"17", b"[", b"1e99", b",", b":", b"-1"]);
                        for k in 0..doc.len() {
                            let mut d2 = doc.clone();
                            d2.splice(k..k + 1, t.iter().copied());
                            feed(c, "json", ty, ty.de_json, &d2, "token");
                        }
                        cov!("documents corrupted everywhere");
                    }
                    k => {
                        for _ in 0..(if k == 2 { 1 } else { 0 }) {
                            json::corrupt(&mut doc, &mut r);
                        }
                        feed(c, "json", ty, ty.de_json, &doc, "read");
                    }
                }
            }
            _ => {
                let ty = *r.pick(&mt);
                let m = arb_mv(ty, &mut r, d);
                let mut t = mref::tree(ty, &m);
                if r.chance(1, 2) {
                    let mut names = vec![];
                    jref::names(ty, &mut names, 3);
                    msgpack::mutate(&mut t, &mut r, &names);
                }
                let mut doc = vec![];
                mref::write(&t, &mut r, &mut doc);
                if r.chance(1, 4) && doc.len() < 600 {
                    for k in 0..doc.len() {
                        feed(c, "msgpack", ty, ty.de_msgpack, &doc[..k], "cut");
                    }
                    cov!("documents cut everywhere");
                    continue;
                }
                if r.chance(1, 2) {
                    msgpack::corrupt(&mut doc, &mut r);
                }
                feed(c, "msgpack", ty, ty.de_msgpack, &doc, "read");
            }
        }
    }
}
