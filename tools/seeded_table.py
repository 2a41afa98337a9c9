"""
Rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json.

AT_FIRST_MISSED lists those the checks did not notice when they were written.
"""
import json, os, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AT_FIRST_MISSED = set("""
restart-keeps-stopped malformed-skipped struct-of-five
line-event-once expose-miss-memo challenge-three-fresh fold-dropped locked-drops-all spawn-one-per-name caseless-hash-prefix expose-bound-by-equality hotfix-name-stripped required-name-lowered resp-lower repr-active-by-equality modal-plain-names modal-direct-modes sig-default-interrupt proc-pty-bool
setup-deep-data asplode-lower-project results-drop-empty negotiate-current-ok size-counted-once disk-one-digit
pads-replaced repr-from-instance-dict view-iterates-copy cert-field-stripped 
pending-header-kept answer-shared-box lost-inner-first wrapper-falsy switch-connects-first switch-extra-after-body
error-details-leak falsy-avatar-pad falsy-values-defaulted start-failure-leaks-session
unrepr-evaluates asplode-keeps-last-marker tell-after-loss command-box-kept long-line-closes expose-known-by-name
errors-bleed-to-base stop-times-after-stats signals-restored-in-part expose-static-first
event-weak-waiters command-first encode-replace timeout-wins expose-memo cert-key-reused
parse-memo prefix-fixed wrapper-cached command-type-ignored humanly-now-kept
modal-first-base react-exceptions-only otp-errors-undeclared cert-appended
remembered-falls-back remembered-first-kept warns-message-prefix loss-tells-listened-only default-sender-falsy-box
route-name-first-wins route-unhandled-stops expose-found-by-name expose-equal-value caseless-subclass-nested
record-mixin-skipped record-class-attributes repr-active-after-failure modal-exit-errors-lost cert-emptied-first
setup-plugins-stop-at-first spawn-root-uid benchmark-stop-on-success avatar-portal-of-class event-falsy-failure
event-cleared-early spewer-toggle-once spewer-locals-handed timeout-kept-when-off
""".split())

rows = []
base = os.path.join(HERE, 'seeded')
for name in sorted(os.listdir(base)):
    meta = json.load(open(os.path.join(base, name, 'meta.json')))
    rows.append((meta['property'], name, meta['needs']))
rows.sort()
lines = ['| property = check that catches it | change | at first | needs |', '|---|---|---|---|']
for prop, name, needs in rows:
    needs = ' '.join(str(needs).split()).replace('|', '\\|')
    if len(needs) > 130:
        needs = needs[:127] + '...'
    lines.append('| %s | %s | %s | %s |' % (
        prop, name, 'missed' if name in AT_FIRST_MISSED else 'caught', needs))
unknown = AT_FIRST_MISSED - set(r[1] for r in rows)
assert not unknown, unknown
path = os.path.join(HERE, 'DESIGN.md')
text = open(path).read()
text = re.sub(r'<!-- seeded -->.*<!-- /seeded -->',
              lambda m: '<!-- seeded -->\n%s\n<!-- /seeded -->' % '\n'.join(lines), text, flags=re.S)
open(path, 'w').write(text)
