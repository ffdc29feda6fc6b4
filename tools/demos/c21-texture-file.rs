use nobject_rs::*;

fn main() {
    std::hint::black_box(load_mtl("newmtl a\nmap_d nobject-probe.png\n").unwrap());
}
