//! Histories of reads and writes of image files inside a scratch directory.
use crate::samp::*;
use crate::{io_kind, Out};
use imgproc_rs::io;
use serde_json::{json, Value};
use std::path::PathBuf;

pub struct Files { dir: PathBuf }

fn digest(b: &[u8]) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for v in b { h = (h ^ *v as u64).wrapping_mul(0x100000001b3); }
    format!("{}-{:x}", b.len(), h)
}

impl Files {
    pub fn new() -> Self {
        let dir = PathBuf::from(std::env::var("HARNESS_DIR").unwrap_or_default());
        Files { dir }
    }
    fn entries(&self) -> Vec<PathBuf> {
        let mut v: Vec<PathBuf> = match std::fs::read_dir(&self.dir) {
            Ok(d) => d.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
            Err(_) => vec![],
        };
        v.sort();
        v
    }
    pub fn snapshot(&self) -> Value {
        json!(self.entries().iter().filter(|p| p.is_file()).map(|p| {
            json!([p.file_name().unwrap().to_string_lossy(), digest(&std::fs::read(p).unwrap_or_default())])
        }).collect::<Vec<_>>())
    }
    pub fn run(&mut self, e: &Value) -> Out {
        assert!(!self.dir.as_os_str().is_empty(), "no scratch directory");
        let name = e["path"].as_str().unwrap_or("none");
        assert!(!name.contains("..") && !name.starts_with('/'));
        let path = self.dir.join(name);
        let text = path.to_str().unwrap().to_string();
        match e["op"].as_str().unwrap() {
            "reset" => {
                for p in self.entries() {
                    if p.is_file() { std::fs::remove_file(p).unwrap(); }
                }
                let _ = std::fs::create_dir(self.dir.join("dir.png"));
                Out::Ok(json!([]))
            }
            "write" => match io::write(&img_in::<u8>(&e["in"]), &text) {
                Ok(()) => Out::Ok(json!([])),
                Err(k) => Out::Err(io_kind(&k)),
            },
            "read" => match io::read(&text) {
                Ok(im) => Out::Ok(img_out(&im, 0)),
                Err(k) => Out::Err(io_kind(&k)),
            },
            "copy" => {
                // A file the code under test did not write where it should have is missing for the next read
                let _ = std::fs::copy(self.dir.join(e["from"].as_str().unwrap()), path);
                Out::Ok(json!([]))
            }
            "del" => { let _ = std::fs::remove_file(path); Out::Ok(json!([])) }
            "raw" => {
                match e["kind"].as_str().unwrap() {
                    "empty" => std::fs::write(path, b"").unwrap(),
                    "garbage" => std::fs::write(path, b"this is not an image, whatever its name says").unwrap(),
                    "trunc" => {
                        // a PNG cut off in the middle of its header
                        let b = image::ImageBuffer::from_fn(3, 2, |x, y| image::Luma([(x + y) as u8]));
                        b.save(&path).unwrap();
                        let d = std::fs::read(&path).unwrap();
                        std::fs::write(&path, &d[..20]).unwrap();
                    }
                    "l16" => { image::ImageBuffer::from_fn(3, 2, |x, y| image::Luma([(x * 300 + y) as u16])).save(&path).unwrap() }
                    "rgb16" => image::ImageBuffer::from_fn(3, 2, |x, y| image::Rgb([(x * 300 + y) as u16, 7, 9])).save(&path).unwrap(),
                    "rgba16" => image::ImageBuffer::from_fn(3, 2, |x, y| image::Rgba([(x * 300 + y) as u16, 7, 9, 11])).save(&path).unwrap(),
                    "la16" => image::ImageBuffer::from_fn(3, 2, |x, y| image::LumaA([(x * 300 + y) as u16, 7])).save(&path).unwrap(),
                    k => panic!("script: {}", k),
                }
                Out::Ok(json!([]))
            }
            k => panic!("script: {}", k),
        }
    }
}
