# Common part of the demonstrations: a scratch directory $S and the generator of the current tree, $FG.
set -eu
HERE=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
mkdir -p "$S/gen/src"
cp "$HERE/fg_main.rs" "$S/gen/src/main.rs"
cp "$HERE/fg.lock" "$S/gen/Cargo.lock"
cat > "$S/gen/Cargo.toml" <<T
[package]
name = "fgdemo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
flapigen = { path = "/repo/macroslib" }
[profile.dev]
debug = false
incremental = false
T
env -u RUSTFLAGS CARGO_TARGET_DIR="$S/target" cargo build --offline -q --manifest-path "$S/gen/Cargo.toml"
FG="$S/target/debug/fgdemo"
# cpp_prog DIR: desc.rs.in, lib.rs (includes glue.rs) and main.cpp of DIR -> DIR/prog
cpp_prog() {
  mkdir -p "$1/out"
  "$FG" cpp "$1/glue.rs" "$1/out" "$1/desc.rs.in"
  rustc --edition 2021 --crate-type staticlib --crate-name glue -A warnings -o "$1/libglue.a" "$1/lib.rs"
  g++ -std=c++17 -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -I "$1/out" "$1/main.cpp" "$1/libglue.a" -o "$1/prog" -lpthread -ldl -lm
}
# java_prog DIR: desc.rs.in, lib.rs (includes glue.rs) and Main.java (class Main, package org.fg) of DIR; then java_run DIR
java_prog() {
  mkdir -p "$1/org/fg" "$1/cls"
  "$FG" java "$1/glue.rs" "$1/org/fg" "$1/desc.rs.in"
  for m in error warn info debug trace; do echo "#[macro_export] macro_rules! $m { (\$(\$t:tt)*) => { { let _ = format!(\$(\$t)*); } } }"; done > "$1/log.rs"
  rustc --edition 2021 --crate-type rlib --crate-name log -o "$1/liblog.rlib" "$1/log.rs"
  { echo "#[allow(warnings)] mod jni_c_header { include!(\"$HERE/jni_c_header.rs\"); } use crate::jni_c_header::*;"; cat "$1/lib.rs"; } > "$1/all.rs"
  rustc --edition 2021 --crate-type cdylib --crate-name glue -A warnings --extern log="$1/liblog.rlib" -o "$1/libglue.so" "$1/all.rs"
  javac -nowarn -proc:none -d "$1/cls" "$1"/org/fg/*.java "$1/Main.java"
}
java_run() { java -Xmx256m -XX:-CreateCoredumpOnCrash -XX:ErrorFile=/dev/null -Dfg.lib="$1/libglue.so" -cp "$1/cls" org.fg.Main; }
