#!/usr/bin/env python3
"""addkind.py FEATURE [deps] -- KIND=FN ...: registers a harness module (development helper)."""
import sys
feat = sys.argv[1]
k = sys.argv.index('--')
deps = sys.argv[2:k]
p = '/verif/harness/Cargo.toml'
t = open(p).read()
t = t.replace('\n[profile.dev]\n', '%s = [%s]\n\n[profile.dev]\n' % (feat, ', '.join('"%s"' % d for d in deps)), 1)
open(p, 'w').write(t)
p = '/verif/harness/src/main.rs'
t = open(p).read()
t = t.replace('\nuse json::J;', '#[cfg(feature = "%s")]\nmod %s;\n\nuse json::J;' % (feat, feat), 1)
for kf in sys.argv[k + 1:]:
    kind, fn = kf.split('=')
    t = t.replace('        x => panic!("VH: unknown case kind', '        #[cfg(feature = "%s")]\n        "%s" => %s::%s(ctx, c),\n        x => panic!("VH: unknown case kind' % (feat, kind, feat, fn), 1)
open(p, 'w').write(t)
