// fgdemo LANG OUT_RS OUT_DIR SRC... : one run of the generator (env: FG_REMOVE, FG_CB=kind:attr, FG_BOOST)
use flapigen::*;
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let out = std::path::PathBuf::from(&a[2]);
    let cfg = match a[0].as_str() {
        "cpp" => LanguageConfig::CppConfig({
            let c = CppConfig::new(out, "fg".into());
            if std::env::var("FG_BOOST").is_ok() {
                c.cpp_optional(CppOptional::Boost).cpp_variant(CppVariant::Boost).cpp_str_view(CppStrView::Boost)
            } else {
                c
            }
        }),
        "java" => LanguageConfig::JavaConfig(JavaConfig::new(out, "org.fg".into())),
        _ => LanguageConfig::PythonConfig(PythonConfig::new("fgmod".into())),
    };
    let mut g = Generator::new(cfg)
        .with_pointer_target_width(64)
        .remove_not_generated_files_from_output_directory(std::env::var("FG_REMOVE").is_ok());
    if let Ok(f) = std::env::var("FG_MERGE") {
        g = g.merge_type_map("user", &std::fs::read_to_string(f).unwrap());
    }
    if let Ok(cb) = std::env::var("FG_CB") {
        let (k, at) = cb.split_once(':').unwrap();
        g = match k {
            "class" => g.register_class_attribute_callback(at, |_, n| println!("CALL class {n}")),
            "enum" => g.register_enum_attribute_callback(at, |_, n| println!("CALL enum {n}")),
            _ => g.register_method_attribute_callback(at, |_, m| println!("CALL method {} {}", m.class_name, m.method_name)),
        };
    }
    g.expand_many("fgdemo", &a[3..], &a[1]);
}
