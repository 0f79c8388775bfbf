import re,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# regenerate mod.rs from pub fn NAME() in scenario modules
mods=[m for m in ['loose','write','tree','commit','tag','sig','ids','index','pack','pair','delta','chain','stores','corrupt','faults','refs','threads','readonly','hold','errs','own','stream','fresh'] if os.path.exists(V+'/harness/scen/%s.rs'%m)]
o='''//! The scenarios: each drives rusty-git's public API with symbolic inputs and states its property as
//! assertions. Shared by the symbolic build (../sym) and the native replay build (../native).
//! The table is generated by tools/mkscen.py from the `pub fn NAME()` of each module.
pub mod kit;
pub mod rt;

'''
o+=''.join('mod %s;\n'%m for m in mods)+'\npub const ALL: &[(&str, fn())] = &[\n'
for m in mods:
    for f in re.findall(r'^pub fn (\w+)\(\) \{', open(V+'/harness/scen/%s.rs'%m).read(), re.M):
        o+='    ("%s_%s", %s),\n'%(m,f,'%s::%s'%(m,f) if m in ('write','own','stream') or f.startswith('writes_') else '|| quiet(%s::%s)'%(m,f))
o+="""];

/// a scenario that only reads: it must leave the file system alone
fn quiet(f: fn()) {
    f();
    rt::check(rt::writes() == 0, "[C22] reading changed the file system")
}
"""
open(V+'/harness/scen/mod.rs','w').write(o)
