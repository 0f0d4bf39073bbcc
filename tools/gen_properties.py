#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Edit here, then run."""
import json, os
M='src/cesr/core/matter/mod.rs'; MT='src/cesr/core/matter/tables.rs'; U='src/cesr/core/util.rs'
I='src/cesr/core/indexer/mod.rs'; IT='src/cesr/core/indexer/tables.rs'
K='src/cesr/core/counter/mod.rs'; KT='src/cesr/core/counter/tables.rs'
C='src/cesr/core/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p('C01','Qualified text encoding of material is exact and lossless',
 'For every code in the material code table and every raw value the code admits, the qualified Base64 text is exactly the one the CESR encoding prescribes (code, size field, zero lead bytes, zero pad bits, URL-safe alphabet, tabulated length), and reading that text back (as string or bytes) gives the same code, raw value and full size. Variable-length material of any length gets the code of the matching lead size, switching to the large-size code exactly when the number of quadlets no longer fits two characters. Raw material that is too short for a fixed-size code is refused and extra raw bytes are not encoded.',
 ['inputs'],'all codes x all raw values (fixed sizes; variable lengths from 0 through both size regimes)',
 'Existing tests encode one or two sample values per code; the property ranges over all raw values, all lengths modulo 3 and the 4095/4096-quadlet switch.',
 [M,MT,U],[('code/size selection and pad arithmetic','new_with_code_and_raw, infil, exfil in '+M),('code table','sizage/hardage in '+MT),('base64 integer conversion',U)],
 ['Matter::new','qb64','qb64b','raw','code','full_size'])
p('C02','Binary encoding of material agrees with the text encoding',
 'For every code and raw value the qualified binary form equals the Base64 decoding of the qualified text form (so conversion between the two domains is lossless in both directions), and reading the binary form gives the same code, raw value and size as reading the text form. A binary form parsed and re-emitted as text gives the original text.',
 ['inputs'],'all codes x all admissible raw values',
 'Tests check qb2 for a handful of fixed values; agreement of the two domains quantifies over every raw value and length.',
 [M,MT,U],[('binary fill and extraction','binfil, bexfil in '+M),('sextet code table','bardage in '+MT)],['qb2','Matter::new qb2'])
p('C03','Material parsing accepts only canonical encodings',
 'Any text or binary input is accepted as qualified material only if it begins with the canonical encoding of the returned code and raw value: unknown codes, truncated input, characters outside the URL-safe alphabet, padding characters, non-zero pad bits and non-zero lead bytes are all refused, in both domains. Bytes after the primitive never change the result, and the reported full size is exactly the number of characters the primitive occupies.',
 ['inputs'],'all byte strings (text and binary), generated as mutations and truncations of valid encodings and as arbitrary data',
 'Tests try one malformed sample per branch; the property needs every acceptance to be justified, and every non-canonical sibling of a valid encoding to be refused.',
 [M,MT,U],[('extraction with pad/lead/length checks','exfil, bexfil in '+M)],['Matter::new qb64/qb64b/qb2'])
p('C04','Primitive parsers return errors, never panic, on any input',
 'Every primitive (material, indexed material, counters and all typed primitives built on them) given arbitrary text, arbitrary bytes, truncated or corrupted encodings, multi-byte characters, or arbitrary code/raw/index combinations either yields a value or returns an error; it never panics or aborts. A value it does yield can be re-encoded in text and binary without failing.',
 ['inputs'],'all strings and byte sequences as qb64, qb64b and qb2, and all code/raw/index/ondex/count parameters, for every primitive type',
 'Unit tests exercise chosen error branches; freedom from panics quantifies over all byte strings, including short ones and non-ASCII text.',
 [M,I,K,U,C+'number.rs',C+'dater.rs',C+'bexter.rs',C+'siger.rs',C+'verfer.rs','src/prefexing/prefixer.rs'],
 [('length checks before slicing','exfil/bexfil of Matter, Indexer, Counter')],['every constructor taking outside data'])
p('C05','Indexed signature encoding is exact and lossless',
 'For every indexed-signature code, raw signature and permitted index pair, the qualified text and binary forms are exactly those the CESR encoding prescribes and reading either form back gives the same code, raw signature, index and other-index. Indices beyond what the code can carry are refused, a current-list-only code refuses an other-index and reads back other-index zero, and a dual-list code given no other-index uses the index.',
 ['inputs'],'all indexed codes x raw values x index/ondex values around 0, 63, 64, 4095, 4096, 262143, u32::MAX',
 'Tests use a few index values per code; index limits, dual indices and both domains quantify over the whole index range.',
 [I,IT,U],[('index packing and limit checks','new_with_code_and_raw, infil, binfil in '+I),('code table','sizage in '+IT)],['Indexer::new','qb64','qb2','index','ondex','Siger'])
p('C06','Indexed signature parsing accepts only canonical encodings',
 'Any text or binary input accepted as an indexed signature begins with the canonical encoding of the code, index, other-index and raw signature returned; unknown codes, truncated input, padding characters, foreign characters, non-zero pad bits and a non-zero other-index under a current-list-only code are refused. Trailing bytes never change the result and the full size is exactly what the primitive occupies.',
 ['inputs'],'all byte strings, generated as mutations and truncations of valid indexed signatures and as arbitrary data',
 'Tests try one malformed sample per branch.',
 [I,IT,U],[('extraction with pad/lead/length checks','exfil, bexfil in '+I)],['Indexer::new qb64/qb64b/qb2','Siger'])
p('C07','Group counters are exact, bounded and lossless',
 'For every counter code and every count it can carry, the text form is the code followed by the fixed-width big-endian Base64 count, the binary form is its Base64 decoding, and both read back to the same code and count; a count that does not fit is refused whichever way it is supplied. Anything accepted as a counter is the canonical encoding of what was returned, and unknown or truncated codes are refused.',
 ['inputs'],'all counter codes x counts 0..64^n (boundary-biased), counts given as integers or Base64, all byte strings as input',
 'Tests use small counts on a few codes; the limit and the large counters quantify over the full count range.',
 [K,KT,U],[('count packing and limit check','new_with_code_and_count, infil, exfil, bexfil in '+K)],['Counter::new','qb64','qb2','count','full_size'])
p('C08','Typed primitives accept only the codes of their kind',
 'A verification key, digest, signature, number, sequence number, date-time, text, identifier-digest, salt, seed or identifier-prefix primitive can only be built from a code of its own kind, regardless of whether it is built from raw material, text or binary; an encoding carrying any other code is refused in every form. Material of its own kind is accepted in every form. Whether a primitive is a digest and whether it is transferable is what its code says.',
 ['inputs'],'all primitive types x all codes x {raw+code, qb64, qb64b, qb2} x raw values',
 'Tests check one wrong code for some types and mostly one construction form; the property ranges over the full type x code x form matrix.',
 [C+'number.rs',C+'seqner.rs',C+'verfer.rs',C+'diger.rs',C+'cigar.rs',C+'dater.rs',C+'bexter.rs',C+'saider.rs',C+'salter.rs',C+'siger.rs','src/signing/signer.rs','src/prefexing/prefixer.rs'],
 [('code validation after extraction','new in each typed primitive')],['constructors of all typed primitives'])
p('C09','Numbers keep their value through every encoding',
 'A non-negative number up to 128 bits becomes a number primitive whose decimal and hexadecimal readings equal it, whose default code is the smallest one that fits, and which keeps value and code through text and binary. A sequence number behaves the same with its single 16-byte code. Hexadecimal text with other characters or a value beyond 128 bits is refused.',
 ['inputs'],'all u128 values (boundary-biased around every code capacity) x codes x construction forms; hex strings',
 'Tests sample a few numbers per code; capacity limits and padding quantify over all values.',
 [C+'number.rs',C+'seqner.rs'],[('code selection by magnitude','Number::new_with_num'),('big-endian padding',C+'number.rs')],['Number','Seqner','num','numh','sn','snh'])
p('C10','Date-times keep their text through every encoding',
 'Any date-time in the 32-character ISO-8601 form with microseconds and offset that is accepted is returned character for character after a trip through text or binary encoding, in its string and byte forms. Text of another length or with characters the encoding cannot carry is refused.',
 ['inputs'],'all ISO-8601 date-times with any offset sign and digits; malformed variants',
 'Tests use three timestamps.',
 [C+'dater.rs'],[('character translation and length check',C+'dater.rs')],['Dater::new','dts','dtsb','qb64'])
p('C11','Base64 text keeps its value through every encoding',
 'Any text over the URL-safe Base64 alphabet (except one that starts with A and whose length is a multiple of four, which the encoding cannot distinguish) becomes a text primitive that returns exactly that text after a trip through text or binary encoding, at every length in both size regimes. Text with any other character is refused.',
 ['inputs'],'all strings over the alphabet with every length modulo 4, leading A characters, both size regimes; strings with foreign characters',
 'Tests use a few short strings.',
 [C+'bexter.rs',M],[('lead padding removed on reading','Bext::rawify/derawify in '+C+'bexter.rs')],['Bexter::new','bext'])
p('C12','Digests are correct for every algorithm and verification is exact',
 'For every supported digest algorithm and any data, the digest primitive holds exactly that algorithm\'s digest of the data, verification succeeds for that data and fails for any different data or altered digest. A digest of some data compared with a different one over that data matches exactly when the other is a digest of the same data too, also when their algorithms differ.',
 ['inputs'],'9 algorithms x arbitrary data (lengths around hash block boundaries) x alterations x algorithm pairs',
 'Tests digest one short message; equivalence to the algorithm quantifies over all inputs and lengths.',
 [C+'diger.rs','src/cesr/crypto/hash.rs'],[('algorithm dispatch','src/cesr/crypto/hash.rs'),('verify/compare',C+'diger.rs')],['Diger::new','verify','compare'])
p('C13','Signatures verify if and only if genuine',
 'For every signing algorithm, seed and message, the signature made by a signer, indexed or not, verifies under the signer\'s own verification key for that message, carries the signature code that matches the algorithm and the requested index or indices, and has the exact key attached. It does not verify for a changed message, a changed signature, another signer\'s key, or a key of another algorithm.',
 ['inputs'],'3 algorithms x transferability x seeds x messages x indices x bit-level alterations of message, signature and key',
 'Tests sign one message with one seed per algorithm.',
 ['src/signing/signer.rs',C+'verfer.rs','src/cesr/crypto/sign.rs'],[('sign dispatch and code choice','src/signing/signer.rs'),('verify dispatch',C+'verfer.rs and src/cesr/crypto/sign.rs')],['sign_unindexed','sign_indexed','Verfer::verify'])
p('C14','Signers derive keys deterministically and survive export and import',
 'The verification key of a signer is exactly the public key its algorithm derives from the seed, with the code matching algorithm and transferability, and the transferability the key reports is the requested one; exporting the signer as text or binary and importing it again yields the same seed, code and verification key. Signers created without a seed are all different and signing with them verifies.',
 ['inputs'],'3 algorithms x transferability x all seeds x text/binary/bytes import; batches of random signers',
 'Tests import one literal; the derivation is over all seeds.',
 ['src/signing/signer.rs','src/cesr/crypto/sign.rs','src/cesr/crypto/csprng.rs'],[('key derivation','src/cesr/crypto/sign.rs'),('constructor dispatch','src/signing/signer.rs')],['Signer::new*','verfer','qb64','qb2'])
p('C15','Salts stretch to keys reproducibly with the documented cost',
 'A seed stretched from a salt equals Argon2id v1.3 over the path with exactly the parameters documented for the tier (or the temporary minimum), for any size, salt and path; signers derived from a salt use that seed for the requested algorithm, transferability, path and tier, and repeated derivation gives the same keys. The salt itself survives export and import, and generated salts are all different.',
 ['inputs'],'salts x paths (empty, unicode, long) x tiers/temporary x sizes x algorithms x transferability',
 'Tests fix a few salts and one path.',
 [C+'salter.rs','src/cesr/crypto/salt.rs'],[('tier parameters','src/cesr/crypto/salt.rs'),('derivation',C+'salter.rs')],['Salter::new','stretch','signer','signers'])
p('C16','Key creators derive exactly the requested, unpaired keys',
 'A salty creator produces exactly the requested keys in order, each derived from its salt at its security tier along the path formed by the creator\'s stem (or else the requested stem, or else the inception position), rotation index and key index in hexadecimal, with the requested code and transferability. Equal requests give equal keys and requests along different paths give different keys. A random creator produces the requested number and kind of keys, all distinct.',
 ['inputs','configurations'],'salt, stem, tier, counts and code lists, pidx/ridx/kidx, transferability, temp',
 'Tests check two literal configurations.',
 ['src/signify/creating.rs',C+'salter.rs'],[('path construction','SaltyCreator::create in src/signify/creating.rs')],['SaltyCreator::create','RandyCreator::create'],'RandyCreator has only private constructors; a cfg-guarded hook exposes them')
p('C17','Secret key material is wiped when its holder is dropped',
 'When a signer, a salt or a key creator is dropped, the memory that held its seed or salt, including the memory of the encodings made while importing, signing, deriving and exporting it inside the library, no longer contains the secret bytes when the library releases it. This holds for every construction form and every order of operations on the holder.',
 ['inputs','histories'],'construction forms x algorithms x operation sequences (sign, export, clone, derive) x drop, with every heap block released by the library inspected',
 'Unit tests never look at released memory.',
 ['src/signing/signer.rs',C+'salter.rs',M,'src/cesr/crypto/sign.rs'],[('zeroize on drop','Drop/ZeroizeOnDrop of Signer and Salter'),('wiping of temporaries',M)],['released heap blocks'])
p('C18','Signing thresholds are satisfied exactly when the rule says so',
 'A numeric threshold of M (at least one) is satisfied by a collection of key indices exactly when it contains at least M different indices; a weighted threshold is satisfied exactly when, in every clause, the weights of the different indexed keys of that clause add up to at least one in exact rational arithmetic. Order and repetition of indices and indices beyond a weighted list never make a threshold satisfied that otherwise is not, and adding indices of listed keys never makes a satisfied threshold unsatisfied.',
 ['inputs'],'numeric thresholds x weighted thresholds (clauses, weights as fractions summing exactly to, just below and above 1) x multisets of indices',
 'Tests use a handful of thresholds and index lists; exactness of the sum and set semantics quantify over all of them.',
 [C+'tholder.rs'],[('numeric and weighted satisfaction','satisfy_numeric, satisfy_weighted in '+C+'tholder.rs')],['Tholder::satisfy'])
p('C19','Threshold expressions survive every representation; malformed are refused',
 'A threshold given as a number, hexadecimal text, JSON text, list of fractions, nested list of clauses, or encoded primitive denotes the same threshold in all of them: its text, number and encoded forms read back to a threshold of the same kind, size, weights and satisfying sets. Threshold expressions that are malformed (negative number, negative or above-one weight, zero denominator, clause whose weights sum below one, empty list or clause, wrong nesting or type) are refused with an error.',
 ['inputs'],'threshold expressions from a grammar of valid and invalid forms x conversions between representations',
 'Tests list a few accepted and refused literals.',
 [C+'tholder.rs',C+'number.rs',C+'bexter.rs'],[('sith/limen processing',C+'tholder.rs')],['Tholder::new','sith','limen','thold','num','size','to_string'])
p('C20','Self-addressing identifiers commit to the whole content',
 'The identifier computed for a structured document equals the digest, under the chosen algorithm, of its compact JSON serialisation with the identifier field replaced by the placeholder of equal length and ignored fields left out, with the version string\'s size corrected; the completed document verifies. Any change to any non-ignored field, to field order, to the identifier, or to its algorithm makes verification fail.',
 ['inputs'],'JSON documents (nested, unicode, with and without version strings, several labels) x digest algorithms x ignored fields x single mutations',
 'Tests saidify two or three documents.',
 [C+'saider.rs',C+'sadder.rs','src/data.rs'],[('derivation and verification',C+'saider.rs')],['Saider::saidify','Saider::verify','Saider::new'])
p('C21','Event documents and their serialisation always agree',
 'An event built from a structured document has a serialisation that is the compact JSON of the document in its field order, with a version-string size equal to the exact number of its bytes and the identifier written in the document; an event loaded from bytes keeps exactly the bytes its version string declares and reports the document they spell. Reloading the serialisation, with arbitrary bytes following it, gives the same document, identifier, size, kind and version. Input shorter than the declared size, or with a malformed or unsupported version string, is refused.',
 ['inputs','histories'],'event documents of all kinds and sizes x construction forms x trailing bytes x truncations x version-string corruptions x re-assignment of document or bytes',
 'Tests load a few literals.',
 [C+'serder.rs',C+'sadder.rs',C+'common.rs','src/data.rs'],[('inhale/exhale/sizing',C+'sadder.rs and common.rs'),('digest','Serder in '+C+'serder.rs')],['Serder::new*','raw','ked','size','said','pretty'])
p('C22','Event accessors report exactly what the event says',
 'The keys, key digests, thresholds, sequence number, first-seen number, identifier prefix, witnesses and establishment flag an event reports are exactly those written in it, in order, for every event type. The identifier an event reports verifies against the event exactly when it is the digest of its content. A missing or malformed field yields an error or an empty result, never a wrong value or a panic.',
 ['inputs'],'event documents with 0..n keys, digests, witnesses and thresholds of all forms; missing/ill-typed fields; mutations',
 'Tests read the fields of two literals.',
 [C+'serder.rs'],[('accessors','verfers, digers, werfers, tholder, ntholder, sner, est... in '+C+'serder.rs')],['Serder accessors'])
p('C23','Credential documents and their serialisation always agree',
 'A credential loaded from bytes or built from a structured document serialises to JSON whose declared size is its exact length; reloading gives the same document, and identifier, status, issuer, schema, subject and chain report exactly what the document says. A missing field, truncated input or another protocol\'s version string is refused with an error rather than a panic.',
 ['inputs'],'credential documents x optional fields x truncations and corruptions',
 'Tests load one literal credential.',
 [C+'creder.rs',C+'sadder.rs'],[('accessors and version check',C+'creder.rs')],['Creder::new*','crd','status','issuer','schema','subject','chains'])
p('C24','Version strings are exact and recognised only when well formed',
 'A version string produced for any protocol, version, kind and size (up to six hexadecimal digits) is read back to exactly those values. Within the window a serialisation may start with, the protocol, kind, version and size recognised are those of the version string actually present, and anything without a complete well-formed one is refused. Correcting the size of a document sets the declared size to its true serialised length and changes nothing else.',
 ['inputs'],'protocol x version x kind x sizes 0..2^24-1 x byte windows with the string at every offset x corruptions',
 'Tests try a few literals.',
 [C+'common.rs'],[('regex and parsing',C+'common.rs')],['versify','deversify','sniff','sizeify'])
p('C25','Identifier prefixes bind to their inception event',
 'The prefix derived from an inception event is the event\'s own single key (non-transferable only for an event that commits to nothing further, transferable otherwise) or the digest of the event under the chosen algorithm with the placeholder in the identifier fields, for every admissible event type, key algorithm and digest algorithm the derivation supports; the derived prefix verifies against the event. It does not verify against an event with other keys, with another identifier where the identifier is to match, or, for digests, with anything else changed, and inadmissible events (several keys, wrong key kind, wrong event type, missing fields) are refused with an error.',
 ['inputs'],'inception and delegated inception (and registry/credential) events x key codes x digest codes x single mutations',
 'Tests derive from a few literal events.',
 ['src/prefexing/prefixer.rs'],[('derive_* and verify_* functions','src/prefexing/prefixer.rs')],['Prefixer::new','verify'])
p('C26','Paths select, join and compare exactly as their parts say',
 'A path built from parts, text or an encoded primitive has the same parts and text in every form; resolving it in any document walks exactly those labels or positions and returns that value or an error. Rooting appends parts, stripping removes exactly a leading path, one path starts with another exactly when its parts do, and the tail it finds in a document is what stands at its end, as text, or an error.',
 ['inputs'],'part lists (labels and indices, including repeated and prefix-sharing ones) x documents x pairs of paths',
 'Tests use one document and five paths.',
 ['src/pathing/pather.rs'],[('path algebra','src/pathing/pather.rs')],['Pather::new*','path','bext','resolve','tail','root','strip','starts_with'])
p('C27','JSON values convert without loss or reordering',
 'Any JSON text parsed into the value model and serialised again is the same compact JSON with the same field order, numbers, booleans, nulls and string escapes; building the value in code, reading elements by key or position, converting to scalar types and comparing agree with the JSON meaning. Ill-typed conversions return an error.',
 ['inputs'],'arbitrary JSON (unicode and control characters, duplicate-free keys, i64 and u64 range integers, all finite doubles, deep nesting)',
 'Tests convert a few literals.',
 ['src/data.rs'],[('From conversions, to_json, indexing','src/data.rs')],['Value','dat!','to_json','to_i64','to_f64','to_string','to_vec','to_map'])
p('C28','Documents from outside never cause a panic',
 'Loading any bytes or any JSON document as an event, credential, threshold, self-addressed document, identifier prefix source or path target returns a value or an error, never a panic, including documents with missing, ill-typed or extreme fields, wrong declared sizes and version strings in unusual places. Every accessor of a document that did load also returns or reports an error.',
 ['inputs'],'arbitrary bytes; JSON generated from event/credential grammars with fields removed, retyped or replaced by extremes',
 'Tests exercise chosen error branches only.',
 [C+'serder.rs',C+'creder.rs',C+'sadder.rs',C+'saider.rs',C+'tholder.rs','src/data.rs','src/prefexing/prefixer.rs','src/pathing/pather.rs'],
 [('error returns on missing/ill-typed fields','constructors and accessors of the listed modules')],['all document-level constructors and accessors'])
p('C29','A stream of primitives parses unambiguously in text and binary',
 'Any sequence of counters, material and indexed signatures concatenated as text can be read back one after another, using only each primitive\'s reported full size to advance, to the same sequence; the same holds for the binary concatenation, and the binary stream is the Base64 decoding of the text stream. The first characters alone determine which of the three kinds comes next.',
 ['inputs','histories'],'sequences of mixed primitives of all codes, including variable-size ones, parsed incrementally',
 'Tests never concatenate primitives.',
 [M,I,K],[('full_size and prefix parsing','Matter, Indexer, Counter')],['full_size','qb64/qb2 constructors'])
p('C30','Attached receipts and signatures carry exactly what was attached',
 'A receipt message names exactly the event it receipts (identifier, sequence number and digest) and a message with attachments is the event\'s serialisation followed by the given indexed controller signatures (under their seal, when one is given) and witness signatures in counted groups; parsing the message back gives the same event, seal, signatures and indices, in order, and nothing else. A message without any signature is refused.',
 ['inputs'],'events x lists of indexed controller and witness signatures x seals (event or last-event)',
 'There are no tests of message assembly.',
 ['src/messaging.rs','src/receipting.rs','src/seal.rs'],[('group assembly','src/messaging.rs'),('receipt assembly','src/receipting.rs')],['messagize','receipt'],'both are private functions; a cfg-guarded hook exposes them')

p('C31','Key event histories are accepted exactly when sound',
 'A history of inception, rotation and interaction events made with the library (keys, prefix, commitments to the next keys, thresholds, witness lists, signatures, attachments, receipts) is accepted in full from its concatenated bytes by a validator that uses only the library\'s parsing, digest, prefix, threshold and signature operations, which report at each event the keys, thresholds, commitments and witnesses in force. With any event altered, reordered, dropped, repeated, signed by keys not in force or not committed to, or with too few or miscounted signatures, exactly the events before the deviation are accepted.',
 ['inputs','histories'],'histories of 1-7 events x key algorithms x digests x prefix kinds x numeric and weighted thresholds x witness changes x partial signing x 17 deviations x stream damage',
 'Tests look at single operations and never carry keys and commitments from one event to the next.',
 [C+'serder.rs',C+'siger.rs',C+'verfer.rs',C+'diger.rs',C+'tholder.rs',C+'saider.rs','src/prefexing/prefixer.rs','src/messaging.rs','src/receipting.rs','src/signing/signer.rs','src/signify/creating.rs',I,K],
 [('prefix binding','Prefixer::verify'),('commitments','Diger::verify'),('thresholds','Tholder::satisfy'),('indexed signatures','Siger, Verfer::verify')],
 ['Serder','Prefixer','Saider','Diger','Tholder','Siger','Verfer','Signer','Counter','messagize','receipt'],
 'the validator itself is part of the harness: the library has none; what is decided is that the library\'s operations compose to the protocol\'s verdict')
p('C32','Results depend only on the arguments',
 'Every operation that involves no randomness gives the same result for the same arguments: repeated, in any order with other operations, at the same time in several threads, and in another process; and it leaves the arguments it was lent unchanged. Verifying a signature made with a randomised scheme is such an operation, whichever signature was made.',
 ['inputs','schedules','histories'],'programs of operations over small pools of near-equal arguments x orders x threads x processes',
 'Tests call an operation once, in a fresh process, with arguments unlike those of any other call.',
 ['src/'],[('no state outside the arguments','all modules'),('lazily built tables and patterns',C+'common.rs, '+C+'bexter.rs')],['all public operations'])
p('C33','Fresh secrets and nonces are never repeated',
 'Every signing key, salt or key creator made without being given a secret gets a full-length one of its own, sharing no part with any other made before, after, at the same time in another thread or in another process, whatever else was done in between. Two signatures over different messages by the randomised signature schemes never use the same nonce, in whichever thread or process they are made.',
 ['inputs','schedules','histories'],'requests for secrets of every kind x threads x processes x operations in between; signatures by equal keys over different messages in several places',
 'Tests make one random key and use it.',
 ['src/cesr/crypto/csprng.rs','src/cesr/crypto/sign.rs',C+'salter.rs','src/signing/signer.rs','src/signify/creating.rs'],
 [('operating system randomness','src/cesr/crypto/csprng.rs, src/cesr/crypto/sign.rs')],['Signer::new_with_defaults','Salter::new_with_defaults','RandyCreator','SaltyCreator::new','sign_indexed','sign_unindexed'])
p('C34','Reading costs no more than the input is long',
 'Whatever sizes, counts, indices, thresholds, numbers, positions or depth untrusted material claims, reading it and asking what it says takes memory in proportion to the length of the material itself (and, following a path, to the depth of the document), and ends within seconds for material of some hundred kilobytes: primitives, indexed signatures and counters in both domains, events and credentials with their keys, commitments, witnesses, thresholds, numbers and identifiers, deciding thresholds of any number of weights with any denominators for any indices, paths and their resolution, number, date and version texts.',
 ['inputs'],'codes with soft parts that claim any size x bodies of 0-40000 characters; documents up to some 500 kB of 16 shapes of bulk in any field; long texts; memory at a time, in all, and processor time of every operation',
 'Tests read short, well-formed material; a size that is claimed but not there, or work that grows with the square or cube of a list, passes them unnoticed.',
 [M,I,K,C+'serder.rs',C+'creder.rs',C+'tholder.rs',C+'saider.rs',C+'common.rs',C+'util.rs','src/data.rs','src/pathing/pather.rs','src/prefexing/prefixer.rs'],
 [('sizes checked before material is taken','Matter, Indexer, Counter'),('sums of weights','Tholder'),('sniffing and reading','Serder, Creder')],
 ['Matter::new','Indexer::new','Counter::new','Serder::new','Creder::new','Tholder::new','Tholder::satisfy','Pather::resolve','Saider::saidify','Saider::verify','Prefixer::verify','sniff','sizeify'],
 'The constants are those of a debug build with an allowance of several times what the tree needs; key derivation, whose cost is its purpose, is left out.')

with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
