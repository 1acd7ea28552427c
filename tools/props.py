"""Single source of properties.jsonl and MANIFEST.json (python3 tools/props.py regenerates both)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, level='other', state=(), observe=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None), _t=technique, _n=note, _l=level, _na=na))
AUTH = 'lib/src/signed_video_h26x_auth.c'; LAUTH = 'lib/src/legacy/legacy_h26x_auth.c'; COMMON = 'lib/src/signed_video_h26x_common.c'
LCOMMON = 'lib/src/legacy/legacy_h26x_common.c'; TLV = 'lib/src/signed_video_tlv.c'; LTLV = 'lib/src/legacy/legacy_tlv.c'; SIGN = 'lib/src/signed_video_h26x_sign.c'
OSSL = 'lib/src/signed_video_openssl.c'; AUTHY = 'lib/src/signed_video_authenticity.c'; LIST = 'lib/src/signed_video_h26x_nalu_list.c'; LLIST = 'lib/src/legacy/legacy_h26x_nalu_list.c'
PLUG = 'lib/plugins/unthreaded-signing/plugin.c'; TPLUG = 'lib/plugins/threaded-signing/plugin.c'; VEND = 'lib/vendors/axis-communications/sv_vendor_axis_communications.c'
exec(open(os.path.join(HERE, 'tools', 'props_list.py')).read())
ids = [p['id'] for p in P]
assert len(set(ids)) == len(ids)
checks = []; na = []
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
    for p in P:
        t, n, l, why = p.pop('_t'), p.pop('_n'), p.pop('_l'), p.pop('_na')
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, (p['id'], 'more than three sentences')
        fh.write(json.dumps(p) + '\n')
        if why: na.append(dict(property=p['id'], reason=why))
        else: checks.append(dict(property=p['id'], quick_cmd='./check.sh %s quick' % p['id'], thorough_cmd='./check.sh %s thorough' % p['id'], technique=t, level=l, level_note=n))
json.dump(dict(version=1, setup_cmd='./check.sh --setup', checks=checks, not_applicable=na,
               notes='All checks compile the current working tree of /repo to LLVM IR in a temporary directory and analyse that IR; nothing of the library is executed.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
