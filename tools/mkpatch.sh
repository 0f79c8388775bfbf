#!/bin/bash
# Copies of three dependencies under target/patch, changed for checking:
#   miniz_oxide (both builds): compression always emits stored blocks, so that both builds make the same
#     system calls; in the symbolic build Adler-32 is the constant 1 (data-dependent loops of a dependency,
#     outside the properties)
#   ahash (both builds): every key hashes to the same constant, so map shards and iteration order do not
#     depend on addresses, and two keys always meet in the same shard
#   dashmap (both builds): a spinning lock waiter yields to the scheduler
set -e
cd "$(dirname "$0")/.."
p=$PWD/target/patch
[ -f $p/.done ] && exit 0
reg=$(ls -d ${CARGO_HOME:-$HOME/.cargo}/registry/src/*/ | head -1)
for c in miniz_oxide-0.9.1 ahash-0.3.8 dashmap-3.11.10; do
  d=$p/${c%-*}
  mkdir -p $d
  cp -rT $reg/$c/src $d/src
  cp $reg/$c/Cargo.toml $d/
done
rm -rf $p/miniz_native; cp -r $p/miniz_oxide $p/miniz_native
python3 - $p <<'P'
import sys,re
b=sys.argv[1]
def edit(f, g):
    s=open(b+f).read(); t=g(s); assert s!=t, f; open(b+f,'w').write(t)
edit('/miniz_oxide/src/shared.rs', lambda s: re.sub(r'pub fn update_adler32\(adler: u32, data: &\[u8\]\) -> u32 \{.*?\n\}', 'pub fn update_adler32(_adler: u32, _data: &[u8]) -> u32 {\n    1\n}', s, flags=re.S))
a='pub const fn create_comp_flags_from_zip_params(level: i32, window_bits: i32, strategy: i32) -> u32 {\n'
for d in ('miniz_oxide','miniz_native'): edit('/%s/src/deflate/core.rs'%d, lambda s: s.replace(a, a+'    let _ = level;\n    let level = 0;\n'))
for f in ('aes_hash','fallback_hash'):
    edit('/ahash/src/%s.rs'%f, lambda s: s.replace('fn finish(&self) -> u64 {', 'fn finish(&self) -> u64 {\n        return 0;\n        #[allow(unreachable_code)]'))
edit('/dashmap/src/lock.rs', lambda s: s.replace('use core::sync::atomic::{spin_loop_hint as cpu_relax, AtomicUsize, Ordering};',
  'use core::sync::atomic::{AtomicUsize, Ordering};\nfn cpu_relax() {\n    extern "C" {\n        fn sched_yield() -> i32;\n    }\n    unsafe { sched_yield() };\n}'))
def cut(s): return re.sub(r'\n\[\[bench\]\]\n(?:[^\[].*\n)*', '\n', s)
open(b+'/ahash/Cargo.toml','r+')
edit('/ahash/Cargo.toml', cut)
P
touch $p/.done
