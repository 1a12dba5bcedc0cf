#!/usr/bin/env python3
"""Writes harness/swigpbt/src/props/client_calls.rs: one arm per public builder
of /repo/interface, its arguments taken by name from `P` (props/client.rs).
Run by hand when a builder gains or loses an argument; the result is committed."""
import os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open('/repo/interface/src/lib.rs').read() + open('/repo/interface/src/replace_authority.rs').read()
cur = ''
out = ['// Written by tools/client_calls.py: every builder of the interface crate by name.',
       'use super::client::{ixs, P};', 'use swig_interface::*;',
       'pub fn call(imp: &str, f: &str, p: &P) -> Option<Result<Vec<solana_program::instruction::Instruction>, String>> {',
       '    Some(match (imp, f) {']
n = 0
for m in re.finditer(r'^impl (\w+) \{|^    pub fn (\w+)(?:<F>)?\(([^{]*?)\n    \) ->', s, re.M | re.S):
    if m[1]:
        cur = m[1]
        continue
    args = [a.strip().replace('mut ', '').split(':')[0].strip() for a in m[3].split(',\n') if a.strip()]
    if 'target_authority_type' in args or cur == 'ClientAction':
        continue
    if 'authority_payload_fn' in args:
        args[args.index('authority_payload_fn')] = 'r1_fn' if 'public_key' in args else 'k1_fn'
    short = cur.replace('Instruction', '')
    out.append(f'        ("{short}", "{m[2]}") => ixs({cur}::{m[2]}({", ".join("p." + a + "()" for a in args)})),')
    n += 1
out += ['        _ => return None,', '    })', '}', '']
open(root + '/harness/swigpbt/src/props/client_calls.rs', 'w').write('\n'.join(out))
print(n, 'builders')
