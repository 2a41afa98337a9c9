"""C35: the certificate tool writes a usable self-signed certificate and its key, saying what was asked for."""
import contextlib
import io
import os
import re
import shutil
import sys
import tempfile

from cryptography import x509
from cryptography.hazmat.primitives import serialization
from cryptography.hazmat.primitives.asymmetric import padding
from cryptography.x509.oid import NameOID

from vf.core import Workload
from epsilon.scripts import certcreate

TARGETS = ['epsilon/scripts/certcreate.py']
LEVEL = 'exploration'
RULE = ('one case = one run of the tool with generated options; the file written is read back with an independent X.509 '
        'implementation; non-trivial = a certificate or a refusal was judged')
ASSUMPTIONS = ['field values are acceptable to X.509 (length limits, two-letter country)']
MUST_SEE = ('certificate', 'defaults', 'short-option', 'quiet', 'loud', 'refused', 'serial', 'overwritten', 'impossible-value', 'no-options', 'command-line')

FIELDS = [('country', 'C', 'US', NameOID.COUNTRY_NAME), ('state', 's', 'New York', NameOID.STATE_OR_PROVINCE_NAME),
          ('city', 'c', 'New York', NameOID.LOCALITY_NAME), ('organization', 'o', 'Divmod LLC', NameOID.ORGANIZATION_NAME),
          ('unit', 'u', 'Security', NameOID.ORGANIZATIONAL_UNIT_NAME), ('hostname', 'h', 'divmod.com', NameOID.COMMON_NAME),
          ('email', 'e', 'support@divmod.org', NameOID.EMAIL_ADDRESS)]


def gen(rng, i, ctx):
    vals = {}
    for name, short, default, oid in FIELDS:
        if rng.random() < .5:
            if name == 'country':
                v = rng.choice(('DE', 'FR', 'GB'))
            elif name == 'email':
                v = rng.choice(('a@b.example', 'x.y+z@w.example'))
            elif name == 'hostname':
                v = rng.choice(('localhost', 'a.example', '*.b.example', '127.0.0.1', 'h' * 60))
            else:
                v = rng.choice(('Somewhere', 'A B C', 'x', 'Q-1 (two)', 'v' * 60, 'a=b', 'a/b', 'New York', ' x', 'y ', ' ', 'UPPER lower', 'a  b', 'None', '0', '%s'))
            vals[name] = [v, rng.choice(('long', 'long=', 'short'))]
    return dict(vals=vals, serial=rng.choice((None, None, 1, 2, 7, 255, 256, 65537, 2 ** 63, 2 ** 100 + 1, '010', '0099', ' 12')), quiet=rng.random() < .5,
                file=rng.choice((None, 'x.pem', 'sub/y.pem', 'with space.pem')), prior=rng.choice((0, 0, 100000)),
                bad=rng.choice((None,) * 12 + ('--no-such-option', '--country', ['--country', 'USA'], ['--hostname', 'h' * 100], ['--organization', ''], ['--serial-number', 'one'])),
                bare=rng.random() < .1)


KEYS = set()        # of every certificate so far


def run(case, mon):
    d = tempfile.mkdtemp(prefix='cert')
    old = os.getcwd()
    os.chdir(d)
    try:
        os.mkdir('sub')
        args = []
        for name, short, default, oid in FIELDS:
            if name in case['vals']:
                v, how = case['vals'][name]
                args += {'long': ['--' + name, v], 'long=': ['--%s=%s' % (name, v)], 'short': ['-' + short, v]}[how]
                if how == 'short':
                    mon.event('short-option')
            else:
                mon.event('defaults')
        if case['serial'] is not None:
            args += ['--serial-number', str(case['serial'])]
            mon.event('serial')
        if case['quiet']:
            args.append('--quiet')
        if case['file'] is not None:
            args += ['--filename', case['file']]
        fn = case['file'] or 'server.pem'
        if case['prior']:
            with open(fn, 'wb') as f:
                f.write(b'x' * case['prior'])
            mon.event('overwritten')
        before = set(os.listdir('.'))
        out = io.StringIO()
        if case['bad']:
            more = case['bad'] if isinstance(case['bad'], list) else [case['bad']]
            with contextlib.redirect_stdout(out):
                try:
                    certcreate.main(args + more)
                except SystemExit as e:
                    mon.check(e.code not in (None, 0), 'bad-options-succeed')
                    mon.event('refused')
                except Exception as e:
                    # values no certificate can have
                    mon.check(len(more) == 2, 'bad-options-raise', e)
                    mon.event('impossible-value')
                else:
                    mon.fail('bad-options-accepted', case['bad'])
            mon.eq(set(os.listdir('.')), before, 'file-written-for-bad-options')
            if case['prior']:
                with open(fn, 'rb') as f:
                    mon.check(f.read() == b'x' * case['prior'], 'file-changed-for-bad-options')
            mon.sig('bad', case['bad'])
            return
        argv = sys.argv
        try:
            # options given as an argument are those which count
            sys.argv = ['certcreate'] + args if case.get('bare') and args else ['certcreate', '--no-such-option']
            with contextlib.redirect_stdout(out):
                if case.get('bare') and args:
                    mon.event('command-line')
                    certcreate.main()
                else:
                    if not args:
                        mon.event('no-options')
                    certcreate.main(args)
        finally:
            sys.argv = argv
        mon.eq(set(os.listdir('.')), before | {fn.split('/')[0]}, 'files')
        with open(fn, 'rb') as f:
            pem = f.read()
        mon.eq(pem.count(b'-----BEGIN '), 2, 'pem-parts')
        rest = re.sub(b'-----BEGIN [A-Z0-9 ]+-----[^-]*-----END [A-Z0-9 ]+-----', b'', pem)
        mon.eq(rest.strip(), b'', 'something-else-in-the-file')
        cert = x509.load_pem_x509_certificate(pem)
        start = pem.index(b'-----BEGIN', 1) if b'PRIVATE' not in pem[:40] else 0
        key = serialization.load_pem_private_key(pem[start:], None)
        mon.eq(cert.public_key().public_numbers(), key.public_key().public_numbers(), 'key-does-not-match')
        n = key.public_key().public_numbers().n
        mon.check(n not in KEYS, 'key-not-fresh')
        KEYS.add(n)
        mon.check(key.key_size >= 1024, 'weak-key', key.key_size)
        key.public_key().verify(cert.signature, cert.tbs_certificate_bytes, padding.PKCS1v15(), cert.signature_hash_algorithm)
        mon.eq(cert.issuer, cert.subject, 'not-self-signed')
        want = {oid: (case['vals'][name][0] if name in case['vals'] else default) for name, short, default, oid in FIELDS}
        mon.eq({a.oid: a.value for a in cert.subject}, want, 'subject')
        mon.eq(len(list(cert.subject)), 7, 'subject-fields')
        mon.eq(cert.serial_number, int(case['serial']) if case['serial'] is not None else 1, 'serial-number')
        if case['quiet']:
            mon.eq(out.getvalue(), '', 'not-quiet')
            mon.event('quiet')
        else:
            mon.check(want[NameOID.COMMON_NAME] in out.getvalue(), 'says-nothing', out.getvalue())
            mon.event('loud')
        mon.event('certificate')
        mon.sig('cert', sorted(case['vals'].items()), case['serial'])
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


WORKLOADS = [Workload('certificates', gen, run, 160, 3000, heavy=True,
                      fixed=[dict(vals={}, serial=None, quiet=False, file=None, prior=0, bad=None),
                             dict(vals={}, serial=None, quiet=False, file=None, prior=100, bad=['--country', 'USA'])])]
