//! Text input (specification TextInput).
use crate::kinds::ctx;
use crate::{guarded, u, Out};
use granne::angular_int;
use granne::embeddings::{parsing, SumEmbeddings};
use serde_json::{json, Value};
use std::fs::{self, File};
use std::io::Write;
use std::path::{Path, PathBuf};

fn write_part(p: &Path, part: &Value) {
    let text = part["text"].as_str().unwrap().as_bytes();
    let mut f = File::create(p).unwrap();
    if part["cuts"].is_null() {
        f.write_all(text).unwrap();
        return;
    }
    // gzip, one member per piece
    let mut at = 0;
    let cuts = crate::list(&part["cuts"]);
    for end in cuts.into_iter().chain(std::iter::once(text.len())) {
        let mut g = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::default());
        g.write_all(&text[at..end]).unwrap();
        f.write_all(&g.finish().unwrap()).unwrap();
        at = end;
    }
}

fn terms_of(elements: &Path, emb: &Path) -> Vec<Vec<usize>> {
    let e = unsafe { SumEmbeddings::from_files(&File::open(emb).unwrap(), Some(&File::open(elements).unwrap())) }.unwrap();
    (0..e.len()).map(|i| e.get_terms(i)).collect()
}

fn go(s: &Value, dir: &Path, out: &mut Out) {
    let words = dir.join("words.json");
    fs::write(&words, s["wordtext"].as_str().unwrap()).unwrap();
    let parts = s["parts"].as_array().unwrap();
    let input = if s["single"].as_bool() == Some(true) {
        let p = dir.join(parts[0]["file"].as_str().unwrap());
        write_part(&p, &parts[0]);
        p
    } else {
        let d = dir.join(s["dir"].as_str().unwrap_or("parts"));
        fs::create_dir(&d).unwrap();
        for p in parts {
            write_part(&d.join(p["file"].as_str().unwrap()), p);
        }
        d
    };
    let emb = dir.join("embeddings.bin");
    let mut e = SumEmbeddings::new();
    for v in &ctx().emb {
        e.push_embedding(&v.iter().map(|&x| x as f32).collect::<Vec<f32>>());
    }
    e.write_embeddings(&mut File::create(&emb).unwrap()).unwrap();

    let progress = s["progress"].as_bool() == Some(true);
    let m = parsing::parse_words(&words);
    let list: Vec<String> = s["wordlist"].as_array().unwrap().iter().map(|w| w.as_str().unwrap().to_string()).collect();
    out.emit(json!({"ev": "words", "panic": false, "n": m.len(), "ids": list.iter().map(|w| m.get(w).map_or(-1, |&x| x as i64)).collect::<Vec<_>>()}));

    let whole = dir.join("whole.bin");
    if s["dirty"].as_bool() == Some(true) {
        fs::write(&whole, vec![7u8; 5000]).unwrap();
    }
    let n = parsing::parse_elements_and_save_to_disk(&input, &words, &whole, progress);
    out.emit(json!({"ev": "parsed", "panic": false, "count": n, "els": terms_of(&whole, &emb)}));

    for (i, sh) in s["shards"].as_array().unwrap().iter().enumerate() {
        let d = dir.join(format!("out{}", i));
        fs::create_dir(&d).unwrap();
        let (stem, ext) = (sh["stem"].as_str().unwrap(), sh["ext"].as_str().unwrap());
        let target: PathBuf = if stem.is_empty() {
            d.clone()
        } else if ext.is_empty() {
            d.join(stem)
        } else {
            d.join(format!("{}.{}", stem, ext))
        };
        let n = parsing::parse_elements_and_save_shards_to_disk(&input, &words, &target, u(sh, "k", 1), progress);
        let mut names: Vec<String> = fs::read_dir(&d).unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).collect();
        // by shard number, the last number in the name
        names.sort_by_key(|n| {
            let t = n.rsplit_once('.').map_or(n.as_str(), |x| x.0);
            t.rsplit_once('-').and_then(|x| x.1.parse::<usize>().ok()).unwrap_or(usize::MAX)
        });
        let els: Vec<_> = names.iter().map(|n| terms_of(&d.join(n), &emb)).collect();
        out.emit(json!({"ev": "shards", "panic": false, "k": sh["k"], "stem": stem, "ext": ext, "names": names, "count": n, "els": els}));
    }

    let vecs = dir.join("vectors.bin");
    if s["dirty"].as_bool() == Some(true) {
        fs::write(&vecs, vec![7u8; 5000]).unwrap();
    }
    parsing::compute_embeddings_and_save_to_disk(&whole, &emb, &vecs, progress);
    let v = unsafe { angular_int::Vectors::from_file(&File::open(&vecs).unwrap()) }.unwrap();
    out.emit(json!({"ev": "vectors", "panic": false, "len": v.len(), "dim": v.dim(),
                    "q": (0..v.len()).map(|i| v.get_element(i).as_slice().to_vec()).collect::<Vec<_>>()}));

    if s["full"].as_bool() == Some(true) {
        let full = Path::new("/dev/full");
        let mut emit = |what: &str, ok: bool| out.emit(json!({"ev": "full", "panic": false, "what": what, "returned": ok}));
        emit("elements", guarded(|| parsing::parse_elements_and_save_to_disk(&input, &words, full, false)).is_ok());
        emit("vectors", guarded(|| parsing::compute_embeddings_and_save_to_disk(&whole, &emb, full, false)).is_ok());
        let d = dir.join("outfull");
        fs::create_dir(&d).unwrap();
        std::os::unix::fs::symlink(full, d.join("elements-1.bin")).unwrap();
        emit("shards", guarded(|| parsing::parse_elements_and_save_shards_to_disk(&input, &words, &d, 2, false)).is_ok());
    }
}

pub fn run(s: &Value, out: &mut Out) {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static N: AtomicUsize = AtomicUsize::new(0);
    let dir = ctx().dir.join(format!("parse{}", N.fetch_add(1, Ordering::Relaxed)));
    fs::create_dir(&dir).unwrap();
    if let Err(m) = guarded(|| go(s, &dir, out)) {
        out.emit(json!({"ev": "panicked", "panic": true, "msg": m}));
    }
    fs::remove_dir_all(&dir).unwrap();
}
