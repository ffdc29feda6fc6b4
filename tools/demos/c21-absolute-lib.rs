fn main() {
    nobject_rs::load_obj("mtllib /nobject-probe/x.mtl\n").unwrap();
}
