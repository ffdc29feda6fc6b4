//! Canonical, comparable form of what the crate returns. Only the public fields
//! are read; maps become ordered maps, floats become bits (zeros unified).
use nobject_rs as n;
use std::collections::BTreeMap;
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct F(pub u32);
impl F {
    pub fn of(x: f32) -> F {
        if x == 0.0 {
            F(0)
        } else if x.is_nan() {
            F(0x7fc0_0000)
        } else {
            F(x.to_bits())
        }
    }
}
impl fmt::Debug for F {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", f32::from_bits(self.0))
    }
}

pub type FaceEl = (i64, Option<i64>, Option<i64>);
pub type LineEl = (i64, Option<i64>);

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct CGroup {
    pub material: String,
    pub bevel: bool,
    pub c_interp: bool,
    pub d_interp: bool,
    pub lod: i64,
    pub tex: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct CModel {
    pub v: Vec<(F, F, F, Option<F>)>,
    pub vn: Vec<(F, F, F)>,
    pub vt: Vec<(F, Option<F>, Option<F>)>,
    pub faces: BTreeMap<String, Vec<(Vec<FaceEl>, i64)>>,
    pub lines: BTreeMap<String, Vec<Vec<LineEl>>>,
    pub points: BTreeMap<String, Vec<Vec<i64>>>,
    pub groups: BTreeMap<String, CGroup>,
    pub mlibs: Vec<String>,
    pub tlibs: Vec<String>,
    pub shadow: Option<String>,
    pub trace: Option<String>,
}

/// A material as field name -> printed value; absent fields are absent keys.
pub type CMat = BTreeMap<&'static str, String>;

pub fn model(m: &n::Model) -> CModel {
    CModel {
        v: m.vertices
            .iter()
            .map(|v| (F::of(v.x), F::of(v.y), F::of(v.z), v.w.map(F::of)))
            .collect(),
        vn: m
            .normals
            .iter()
            .map(|v| (F::of(v.x), F::of(v.y), F::of(v.z)))
            .collect(),
        vt: m
            .textures
            .iter()
            .map(|v| (F::of(v.u), v.v.map(F::of), v.w.map(F::of)))
            .collect(),
        faces: m
            .faces
            .iter()
            .map(|(k, fs)| {
                (
                    k.clone(),
                    fs.iter()
                        .map(|f| {
                            (
                                f.elements
                                    .iter()
                                    .map(|e| {
                                        (
                                            e.vertex_index as i64,
                                            e.texture_index.map(|x| x as i64),
                                            e.normal_index.map(|x| x as i64),
                                        )
                                    })
                                    .collect(),
                                f.smoothing_group as i64,
                            )
                        })
                        .collect(),
                )
            })
            .collect(),
        lines: m
            .lines
            .iter()
            .map(|(k, ls)| {
                (
                    k.clone(),
                    ls.iter()
                        .map(|l| {
                            l.elements
                                .iter()
                                .map(|e| (e.vertex_index as i64, e.texture_index.map(|x| x as i64)))
                                .collect()
                        })
                        .collect(),
                )
            })
            .collect(),
        points: m
            .points
            .iter()
            .map(|(k, ps)| {
                (
                    k.clone(),
                    ps.iter()
                        .map(|p| p.elements.iter().map(|x| *x as i64).collect())
                        .collect(),
                )
            })
            .collect(),
        groups: m
            .groups
            .iter()
            .map(|(k, g)| {
                (
                    k.clone(),
                    CGroup {
                        material: g.material_name.clone(),
                        bevel: g.bevel,
                        c_interp: g.c_interp,
                        d_interp: g.d_interp,
                        lod: g.lod as i64,
                        tex: g.texture_map.clone(),
                    },
                )
            })
            .collect(),
        mlibs: m.material_libs.clone(),
        tlibs: m.texture_libs.clone(),
        shadow: m.shadow_obj.clone(),
        trace: m.trace_obj.clone(),
    }
}

pub fn f(x: f32) -> String {
    format!("{:?}", F::of(x))
}
fn of(x: Option<f32>) -> String {
    x.map(f).unwrap_or_else(|| "-".into())
}
pub fn color(c: &n::ColorType) -> String {
    match c {
        n::ColorType::Rgb(a, b, c) => format!("rgb {} {} {}", f(*a), f(*b), f(*c)),
        n::ColorType::CieXyz(a, b, c) => format!("xyz {} {} {}", f(*a), f(*b), f(*c)),
        n::ColorType::Spectral(s, k) => format!("spectral {:?} {}", s, f(*k)),
    }
}
fn t3(t: &(f32, Option<f32>, Option<f32>)) -> String {
    format!("{} {} {}", f(t.0), of(t.1), of(t.2))
}

macro_rules! put {
    ($m:expr, $k:expr, $o:expr, $f:expr) => {
        if let Some(x) = &$o {
            $m.insert($k, $f(x));
        }
    };
}

/// Key names per map kind: [file, blendu, blendv, cc, clamp, mm, o, s, t, texres, imfchan, bm, type]
pub const MAP_KEYS: [(&str, [&str; 13]); 9] = [
    ("map_Ka", ["map_Ka.file", "map_Ka.blendu", "map_Ka.blendv", "map_Ka.cc", "map_Ka.clamp", "map_Ka.mm", "map_Ka.o", "map_Ka.s", "map_Ka.t", "map_Ka.texres", "map_Ka.imfchan", "map_Ka.bm", "map_Ka.type"]),
    ("map_Kd", ["map_Kd.file", "map_Kd.blendu", "map_Kd.blendv", "map_Kd.cc", "map_Kd.clamp", "map_Kd.mm", "map_Kd.o", "map_Kd.s", "map_Kd.t", "map_Kd.texres", "map_Kd.imfchan", "map_Kd.bm", "map_Kd.type"]),
    ("map_Ks", ["map_Ks.file", "map_Ks.blendu", "map_Ks.blendv", "map_Ks.cc", "map_Ks.clamp", "map_Ks.mm", "map_Ks.o", "map_Ks.s", "map_Ks.t", "map_Ks.texres", "map_Ks.imfchan", "map_Ks.bm", "map_Ks.type"]),
    ("map_Ns", ["map_Ns.file", "map_Ns.blendu", "map_Ns.blendv", "map_Ns.cc", "map_Ns.clamp", "map_Ns.mm", "map_Ns.o", "map_Ns.s", "map_Ns.t", "map_Ns.texres", "map_Ns.imfchan", "map_Ns.bm", "map_Ns.type"]),
    ("map_d", ["map_d.file", "map_d.blendu", "map_d.blendv", "map_d.cc", "map_d.clamp", "map_d.mm", "map_d.o", "map_d.s", "map_d.t", "map_d.texres", "map_d.imfchan", "map_d.bm", "map_d.type"]),
    ("disp", ["disp.file", "disp.blendu", "disp.blendv", "disp.cc", "disp.clamp", "disp.mm", "disp.o", "disp.s", "disp.t", "disp.texres", "disp.imfchan", "disp.bm", "disp.type"]),
    ("decal", ["decal.file", "decal.blendu", "decal.blendv", "decal.cc", "decal.clamp", "decal.mm", "decal.o", "decal.s", "decal.t", "decal.texres", "decal.imfchan", "decal.bm", "decal.type"]),
    ("bump", ["bump.file", "bump.blendu", "bump.blendv", "bump.cc", "bump.clamp", "bump.mm", "bump.o", "bump.s", "bump.t", "bump.texres", "bump.imfchan", "bump.bm", "bump.type"]),
    ("refl", ["refl.file", "refl.blendu", "refl.blendv", "refl.cc", "refl.clamp", "refl.mm", "refl.o", "refl.s", "refl.t", "refl.texres", "refl.imfchan", "refl.bm", "refl.type"]),
];

fn ccm(m: &mut CMat, k: &[&'static str; 13], c: &n::ColorCorrectedMap) {
    m.insert(k[0], format!("{:?}", c.file_name));
    put!(m, k[1], c.blend_u, |b: &bool| b.to_string());
    put!(m, k[2], c.blend_v, |b: &bool| b.to_string());
    put!(m, k[3], c.color_correct, |b: &bool| b.to_string());
    put!(m, k[4], c.clamp, |b: &bool| b.to_string());
    put!(m, k[5], c.texture_range, |r: &(f32, f32)| format!("{} {}", f(r.0), f(r.1)));
    put!(m, k[6], c.offset, t3);
    put!(m, k[7], c.scale, t3);
    put!(m, k[8], c.turbulance, t3);
    put!(m, k[9], c.texture_res, |i: &i32| i.to_string());
}
fn nccm(m: &mut CMat, k: &[&'static str; 13], c: &n::NonColorCorrectedMap) {
    m.insert(k[0], format!("{:?}", c.file_name));
    put!(m, k[1], c.blend_u, |b: &bool| b.to_string());
    put!(m, k[2], c.blend_v, |b: &bool| b.to_string());
    put!(m, k[4], c.clamp, |b: &bool| b.to_string());
    put!(m, k[5], c.texture_range, |r: &(f32, f32)| format!("{} {}", f(r.0), f(r.1)));
    put!(m, k[6], c.offset, t3);
    put!(m, k[7], c.scale, t3);
    put!(m, k[8], c.turbulance, t3);
    put!(m, k[9], c.texture_res, |i: &i32| i.to_string());
    put!(m, k[10], c.imf_chan, |s: &String| format!("{:?}", s));
}

pub fn material(x: &n::Material) -> CMat {
    let mut m = CMat::new();
    m.insert("name", format!("{:?}", x.name));
    put!(m, "Ka", x.ambient, color);
    put!(m, "Kd", x.diffuse, color);
    put!(m, "Ks", x.specular, color);
    put!(m, "Ke", x.emissive_coefficient, color);
    put!(m, "Tf", x.transmission_factor, color);
    put!(m, "Ns", x.specular_exponent, |v: &f32| f(*v));
    put!(m, "d", x.disolve, |d: &n::DisolveType| match d {
        n::DisolveType::Alpha(a) => format!("alpha {}", f(*a)),
        n::DisolveType::Halo(a) => format!("halo {}", f(*a)),
    });
    put!(m, "Tr", x.transparancy, |v: &f32| f(*v));
    put!(m, "sharpness", x.sharpness, |v: &f32| f(*v));
    put!(m, "Ni", x.index_of_refraction, |v: &f32| f(*v));
    put!(m, "illum", x.illumination_mode, |v: &u32| v.to_string());
    put!(m, "map_aat", x.anti_alias_map, |v: &bool| v.to_string());
    if let Some(c) = &x.texture_map_ambient {
        ccm(&mut m, &MAP_KEYS[0].1, c);
    }
    if let Some(c) = &x.texture_map_diffuse {
        ccm(&mut m, &MAP_KEYS[1].1, c);
    }
    if let Some(c) = &x.texture_map_specular {
        ccm(&mut m, &MAP_KEYS[2].1, c);
    }
    if let Some(c) = &x.shininess_map {
        nccm(&mut m, &MAP_KEYS[3].1, c);
    }
    if let Some(c) = &x.disolve_map {
        nccm(&mut m, &MAP_KEYS[4].1, c);
    }
    if let Some(c) = &x.displacement_map {
        nccm(&mut m, &MAP_KEYS[5].1, c);
    }
    if let Some(c) = &x.decal {
        nccm(&mut m, &MAP_KEYS[6].1, c);
    }
    if let Some(b) = &x.bump_map {
        let k = &MAP_KEYS[7].1;
        if let Some(c) = &b.map_settings {
            nccm(&mut m, k, c);
        }
        put!(m, k[11], b.bump_multiplier, |v: &f32| f(*v));
    }
    if let Some(r) = &x.reflection_map {
        let k = &MAP_KEYS[8].1;
        if let Some(c) = &r.map_settings {
            ccm(&mut m, k, c);
        }
        // An empty type is how the crate says "no -type written".
        if !r.reflection_type.is_empty() {
            m.insert(k[12], format!("{:?}", r.reflection_type));
        }
    }
    m
}
