# sourced by demo.sh: R is the repository (current directory), S a scratch directory, D the demo's own folder
R=$PWD; D=$(cd "$(dirname "$0")" && pwd); S=$(mktemp -d); trap 'rm -rf "$S"' EXIT
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_PROFILE_DEV_OPT_LEVEL=2 CARGO_PROFILE_TEST_OPT_LEVEL=2 CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0 RUST_BACKTRACE=0
# a copy of the library with demo.rs as an extra test module (sees private items)
lib_test() {
  mkdir -p "$S/w/visqol-rs"; cp -r "$R/visqol-rs/." "$S/w/visqol-rs/"
  printf '[workspace]\nmembers=["visqol-rs"]\nresolver="2"\n' > "$S/w/Cargo.toml"
  if [ -e "$R/Cargo.lock" ]; then cp "$R/Cargo.lock" "$S/w/"; else cp /opt/vp/Cargo.lock "$S/w/"; fi
  cp -r "$R/model" "$S/w/model"
  cp "$D/demo.rs" "$S/w/visqol-rs/src/vdemo.rs"
  printf '\n#[cfg(test)]\nmod vdemo;\n' >> "$S/w/visqol-rs/src/lib.rs"
  (cd "$S/w/visqol-rs" && SCRATCH="$S" CARGO_TARGET_DIR="$S/t" cargo test --offline --lib vdemo 2>&1 | tail -40; exit ${PIPESTATUS[0]})
}
# a program using the public interface of the library and of serde_json
lib_prog() {
  mkdir -p "$S/p/src"; cp "$D/demo.rs" "$S/p/src/main.rs"
  printf '[package]\nname="vdemo"\nversion="0.1.0"\nedition="2021"\n[dependencies]\nvisqol-rs={path="%s/visqol-rs"}\nserde_json="1"\nserde="1"\n[workspace]\n' "$R" > "$S/p/Cargo.toml"
  if [ -e "$R/Cargo.lock" ]; then cp "$R/Cargo.lock" "$S/p/"; else cp /opt/vp/Cargo.lock "$S/p/"; fi
  (cd "$S/p" && CARGO_TARGET_DIR="$S/t" cargo build --offline 2>&1 | tail -20; exit ${PIPESTATUS[0]}) && PROG="$S/t/debug/vdemo"
}
cli() { "$R/target/debug/visqol" "$@"; }
# mkwav FILE SECONDS RATE CHANNELS SEED [GAIN]: modulated noise and tones
mkwav() {
python3 - "$@" <<'P'
import sys,struct,math,random
f,sec,rate,ch,seed=sys.argv[1],float(sys.argv[2]),int(sys.argv[3]),int(sys.argv[4]),int(sys.argv[5])
g=float(sys.argv[6]) if len(sys.argv)>6 else 1.0
r=random.Random(seed); n=int(sec*rate); d=[]
for i in range(n):
    t=i/rate; e=0.5*(1+math.sin(2*math.pi*3*t+seed))
    for c in range(ch):
        x=e*(0.3*math.sin(2*math.pi*(300+100*c)*t)+0.2*math.sin(2*math.pi*1100*t)+0.1*(r.random()-0.5))
        d.append(max(-32767,min(32767,int(x*g*20000))))
b=struct.pack("<%dh"%len(d),*d)
open(f,"wb").write(b"RIFF"+struct.pack("<I",36+len(b))+b"WAVEfmt "+struct.pack("<IHHIIHH",16,1,ch,rate,rate*ch*2,ch*2,16)+b"data"+struct.pack("<I",len(b))+b)
P
}
