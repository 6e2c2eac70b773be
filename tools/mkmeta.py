#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
EE = 'pyee/pyexec/'


def prop(id, title, statement, over, text, why, files, mech, note, level='proof', observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': [EE + f for f in files],
                           'mechanism': [{'name': n, 'where': EE + w} for n, w in mech],
                           'state': [{'name': a, 'meaning': b, 'where': EE + c} for a, b, c in state],
                           'observe_at': list(observe), 'hook_needed': None}))
    P[-1]['_note'] = note
    P[-1]['_level'] = level


def na(id, title, statement, over, text, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text},
                  why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'state': [],
                           'observe_at': [], 'hook_needed': None}))
    NA.append({'property': id, 'reason': reason})


prop('C01', 'Integers have one canonical, exact byte form',
     'Every integer of any size is written as the shortest big-endian two\'s complement byte string that represents it '
     '(at least one byte), and reading that string gives back the same integer. The reader accepts any byte string and '
     'returns its two\'s complement value. The storage codec and the IPC codec agree on this.',
     ['inputs'], 'all integers; all byte strings',
     'The tests use about ten values; sign and byte-length boundaries exist at every multiple of 8 bits.',
     ['utils/__init__.py', 'ipc/proxy.py'],
     [('storage codec', 'utils/__init__.py'), ('IPC codec', 'ipc/proxy.py')],
     'All integers and byte strings, unbounded. The power-of-two and two\'s complement facts used by the engine are '
     'axioms instantiated by the engine.')

prop('C02', 'Typed values survive the wire encoding unchanged',
     'Any value made of null, booleans, integers, byte strings, text, addresses, lists and string-keyed maps is encoded '
     'for the peer as the tagged form of the protocol, and decoding that form gives back an equal value of the same '
     'type; a map with a non-string key or a value of another type is rejected instead of being altered. A boolean is '
     'never sent or read as an integer, and a malformed boolean is rejected. Messages are written to and read from the '
     'connection unchanged and in order.',
     ['inputs'], 'all values of the supported types, any nesting; all malformed booleans and addresses',
     'No test encodes a value through the wire codec.',
     ['ipc/proxy.py', 'pyexec.py', 'ipc/client.py'],
     [('tagged encoder and decoder', 'ipc/proxy.py'), ('address codec', 'pyexec.py'), ('framing', 'ipc/client.py')],
     'Leaves are unbounded; nesting is by induction: the recursive call is replaced by the contract. Containers with up '
     'to three elements of arbitrary kind are enumerated (bounded), msgpack itself is trusted.')

prop('C03', 'Addresses convert between their forms without loss or confusion',
     'An address holds a kind (account or contract) and exactly 20 bytes; its text form is the two-letter prefix and 40 '
     'lowercase hex digits, its binary form is the kind byte and the 20 bytes, and each form read back gives an equal '
     'address. Any other text or binary input is rejected, never silently mapped to some address, except that a bare 20 '
     'byte string denotes an account. Two addresses are equal exactly when kind and bytes are equal, and equal addresses '
     'hash alike. (The deprecated malformed-address class of the old network is not covered.)',
     ['inputs'], 'all texts, all byte strings, all kinds and bodies',
     'Tests only build a few valid addresses.',
     ['base/address.py', 'utils/__init__.py'],
     [('parse, print, equality', 'base/address.py'), ('hex check', 'utils/__init__.py')],
     'All byte strings and texts of any length; text is a sequence of code points, the hex check is the code\'s regular '
     'expression evaluated by the model of re.match.')

prop('C04', 'Different stored variables never share a database key',
     'The database key of an element is determined by the kind of the container, its path (prefixes of the database, name '
     'and nested keys) and the element key, each taken by its byte encoding, and nothing else; it is the hash of an '
     'unambiguous encoding of them. Two elements that differ in kind, path or element key get different keys unless the '
     'hash function collides. Keys do not depend on the history of accesses.',
     ['inputs', 'programs'], 'all names and keys of any length, all nesting depths and container kinds',
     'A test samples a handful of short keys; ambiguity of the concatenation shows only for specially crafted lengths.',
     ['database/db.py', 'iconscore/icon_container_db.py'],
     [('length-prefixed key encoding', 'database/db.py'), ('tag and prefix chaining', 'database/db.py'),
      ('container tags', 'iconscore/icon_container_db.py')],
     'Key encodings are compared as byte strings before hashing; SHA3-256 is an uninterpreted injective-unless-collision '
     'function. Names and keys have unbounded length; nesting depths up to 3 are enumerated.')

prop('C05', 'A stored array behaves like a list',
     'For every content of the store, appending, popping, reading, overwriting, iterating, measuring and searching a '
     'stored array give the results of the same operations on a list and change nothing else: negative indices count '
     'from the end, an index out of range is rejected with an invalid-parameter error, and popping an empty array '
     'returns nothing. A rejected operation writes nothing.',
     ['inputs', 'histories'], 'all lengths, indices and values; one operation from an arbitrary well-formed state',
     'Tests run one script on a mock database.',
     ['iconscore/icon_container_db.py', 'database/db.py'],
     [('array operations', 'iconscore/icon_container_db.py')],
     'Each operation is proved from an arbitrary state with a symbolic size (frame: exact list of writes), iteration is '
     'bounded by 6 elements.')

prop('C06', 'Stored variables and dictionaries read back the last write',
     'A stored variable or dictionary entry reads back exactly the value written last with the declared type, the '
     'default (zero, empty text, false, or nothing for addresses and byte strings) when it was never written or was '
     'removed, and membership is true exactly when an entry is stored. (The node does not tell an empty stored value from '
     'a missing one, so an empty text or byte string may read back as never written.) A write or removal touches only its own entry. '
     'An unsupported key or value type, a missing key, or a write, removal or iteration at the wrong nesting depth is rejected without writing.',
     ['inputs', 'histories'], 'all key and value types and values, all nesting depths up to 3',
     'Tests write a few values of fixed types to a mock.',
     ['iconscore/icon_container_db.py', 'database/db.py'],
     [('variable and dictionary operations', 'iconscore/icon_container_db.py')],
     'Run through the executor\'s message loop against the ghost store; all values symbolic.')

prop('C07', 'The step meter never overspends and never loses a charge',
     'A charge either fits into the limit, counting refunds that are still pending, and is added exactly, or fails with '
     'out-of-step and leaves the whole limit consumed. A charge is the base cost of its kind plus the unit cost times '
     'the count, taken from the cost table of the transaction, with zero for a kind the table does not list and unknown '
     'kinds ignored. A failed charge is never reported as success and a charge that fits never fails.',
     ['inputs', 'histories'], 'all cost tables (both schemas), limits, counts and pending refund behaviour',
     'Tests fix one table per schema and a single path.',
     ['iconscore/icon_score_step.py'],
     [('step counter', 'iconscore/icon_score_step.py')],
     'Unbounded integers; up to six pending refunds, which C15 proves to be all there can be.')

prop('C08', 'State access is charged by what it does',
     'A transaction pays for each read by the size read, for each write by the size written with a refund when it '
     'replaces a value, and for each removal by the size removed, as its cost table says under both schemas, whatever '
     'the order in which the database reports old sizes. Cost tables are those where replacing is never dearer than '
     'writing. When the transaction succeeds, the used steps equal the sum of these charges and are within the limit; it '
     'succeeds whenever the running total, with every refund due so far, stays within the limit, and fails with '
     'out-of-step when the total does not fit. A write that cannot be paid for is not sent to the database.',
     ['inputs', 'histories', 'configurations'],
     'all value sizes, limits, cost tables with non-negative costs, any history of accesses',
     'Tests mock the counter and never combine pipelined writes with tight limits.',
     ['database/db.py', 'iconscore/icon_score_step.py', 'ipc/proxy.py'],
     [('charging of reads, writes and removals', 'database/db.py'), ('pending old values', 'ipc/proxy.py')],
     'Induction over the accesses: from any number of unanswered writes and any steps used, one more access, '
     'then the end; the handlers of unanswered writes by contract.')

prop('C09', 'Hash, key and JSON helpers compute the right value and charge for it',
     'The hash, address-from-key, key-recovery and JSON helpers return exactly what the named algorithm returns on '
     'valid input and an error or nothing on invalid input, and charge the steps derived from the API cost of the '
     'transaction and the input size as documented, before the result is delivered. If the charge does not fit, no '
     'result is delivered. JSON calls are free, and spaced, before the compact-JSON revision flag.',
     ['inputs', 'configurations'], 'all inputs of any size, all API costs, limits and revision flags',
     'Tests mock everything except one value per helper.',
     ['iconscore/icon_score_base2.py'],
     [('helpers and their charges', 'iconscore/icon_score_base2.py')],
     'Hash functions, secp256k1 and JSON text are uninterpreted functions named by algorithm; sizes and costs unbounded.')

prop('C10', 'Read-only execution changes nothing',
     'A query, or a call of a method declared read-only, never causes the executor to send a state write, a removal or '
     'an event, and a query never sends a fee-sharing setting; an attempt is refused with an error. This holds at any '
     'depth of nested calls, and after a nested call returns the enclosing execution has its own permission back.',
     ['inputs', 'programs', 'histories'],
     'all methods, contexts (query or transaction), nesting of calls up to depth 2, and operations',
     'No test runs a query.',
     ['database/db.py', 'ipc/proxy.py', 'iconscore/icon_score_eventlog.py', 'iconscore/icon_score_base.py',
      'iconscore/icon_score_context.py'],
     [('writable check', 'database/db.py'), ('read-only stack of the connection', 'ipc/proxy.py'),
      ('event refusal', 'iconscore/icon_score_eventlog.py')],
     'Decided at the connection: the recorded messages contain no write. Operations are enumerated, their values symbolic.')

prop('C11', 'Only published entry points run, and only with permitted coins',
     'A call reaches contract code only if the method is declared external, or is the install or update hook, or is the '
     'fallback and that is declared payable; any other name is refused and no contract method runs (with positional '
     'arguments it is refused as method-not-found). '
     'If coins are sent to a method that is not payable, the call is refused as not-payable before the method runs. '
     'Otherwise the method named runs exactly once with the given arguments and its return value is the result.',
     ['inputs', 'programs'], 'all method names, values of coins, arguments and decorator combinations',
     'No test dispatches a method.',
     ['iconscore/icon_score_base.py', 'service_engine.py', 'iconscore/typing/element.py'],
     [('dispatch checks', 'iconscore/icon_score_base.py'), ('invocation', 'service_engine.py')],
     'Method name is an arbitrary text (decided by equality against the names of the test contract), value and '
     'arguments symbolic.')

prop('C12', 'Every invocation is answered exactly once with its true outcome',
     'Each invocation gets exactly one result message: success with the returned value, or the failure code and message '
     'of the error that ended it, where a revert code is shifted by 32 and clamped into 32..999 and any error that is '
     'not a contract or service error is reported as a system error. The reported steps are the steps used, or the whole limit when the returned value cannot be sent. Whatever '
     'happens, also when the steps run out while the last pending writes are settled, the executor stays ready and the '
     'next invocation is not affected.',
     ['inputs', 'programs', 'fault_sequences', 'histories'],
     'all outcomes of contract code, revert codes and messages, and a following invocation',
     'No test sends an invocation through the message loop.',
     ['service_engine.py', 'ipc/proxy.py', 'base/exception.py', 'pyexec.py', 'iconscore/icon_score_base2.py'],
     [('outcome mapping', 'service_engine.py'), ('result message', 'ipc/proxy.py'), ('codes', 'base/exception.py')],
     'The contract code is arbitrary: it returns any value or raises any of the enumerated exception kinds with '
     'symbolic payload.')

prop('C13', 'Calls between contracts carry exactly what the caller asked',
     'A call, transfer or interface call sends one call message with the target, coins, method and arguments given (a '
     'missing method means the fallback, coins of an interface are used for one call only) and a step limit equal to '
     'the steps the caller has left. The caller is charged exactly the steps the callee reports, and a success returns '
     'the callee\'s value while a failure raises an error with the callee\'s code and message. A callee that reports '
     'more steps than its limit makes the call fail.',
     ['inputs', 'programs', 'histories'], 'all targets, amounts, methods, arguments, limits, and callee results',
     'No test makes a call.',
     ['iconscore/internal_call.py', 'ipc/proxy.py', 'iconscore/icon_score_base.py', 'iconscore/icon_score_base2.py'],
     [('message call', 'iconscore/internal_call.py'), ('call message and nested loop', 'ipc/proxy.py')],
     'The callee\'s status, steps and result are symbolic.')

prop('C14', 'Events are recorded as declared',
     'Emitting an event sends its signature (name and parameter types), the first arguments up to the declared number as '
     'indexed and the others as data, in declaration order and each encoded by its type; missing arguments take their '
     'declared defaults. Wrong types, missing or too many arguments, and the reserved transfer signature are refused and '
     'nothing is sent. The event is paid by its encoded size before it is sent.',
     ['inputs', 'programs'], 'all argument values and nulls, positional and keyword, all indexed counts',
     'No test emits an event.',
     ['iconscore/icon_score_base.py', 'iconscore/icon_score_eventlog.py', 'ipc/proxy.py'],
     [('argument resolution', 'iconscore/icon_score_base.py'), ('event emission', 'iconscore/icon_score_eventlog.py')],
     'A family of event declarations covering every type, defaults and indexed counts 0..3; argument values symbolic.')

prop('C15', 'Replies are matched to requests in order',
     'Writes are sent without waiting for the old value, yet every reply is consumed by the write or request it belongs '
     'to, in order, at most five writes are left unanswered, and every pending reply is consumed before the result is '
     'sent. A reply of the wrong kind is never taken as the value of another request, and is an error for every request but '
     'a call, which skips it. This holds also '
     'when handling a reply fails because the steps run out.',
     ['schedules', 'histories', 'inputs'],
     'all operations after any number of pending writes, and all limits',
     'Tests do not use the connection.',
     ['ipc/proxy.py', 'database/db.py', 'service_engine.py'],
     [('pending handlers', 'ipc/proxy.py')],
     'The ghost peer answers in FIFO order; obligations compare each delivered reply with its request. A step starts '
     'with any number (up to the limit of five) of pending writes, so that it is inductive over histories.')

prop('C16', 'Text parameters are converted to the declared types or refused',
     'When a method is invoked with named text parameters, and its parameters are declared with one of the five basic types '
     'or an Optional of one, the method receives, for each parameter, the value that the '
     'text denotes in the declared type (decimal or 0x-prefixed integers, booleans as zero or non-zero, addresses, hex '
     'bytes, text), and an absent or null parameter is left to its default. A text that does not denote a value of the '
     'declared type makes the invocation fail and the method does not run. Positional parameters arrive unchanged.',
     ['inputs'], 'all parameter texts of any length for each type',
     'No test converts a parameter.',
     ['base/type_converter.py', 'service_engine.py', 'base/address.py'],
     [('conversion by annotation', 'base/type_converter.py'), ('parameter decoding', 'service_engine.py')],
     'int(text, base) and bytes.fromhex are modelled as uninterpreted partial functions with their documented domain '
     'on the forms used.')

prop('C17', 'The published interface is what the contract accepts',
     'The interface a contract publishes lists exactly the methods that can be called from outside (the external methods, '
     'the payable fallback, and the install and update hooks), inherited ones included, and the events it declares, each '
     'once, with for each method its external, read-only and payable flags, its parameters in order with their types, '
     'defaults and structure fields, and, for a read-only method, its output type; for each event its parameters and the '
     'number of indexed ones. Defaults are sent encoded by type, and the number of optional parameters is the number of '
     'defaults. Loading the interface never touches stored state, and a contract that cannot be loaded gives a failure '
     'status.',
     ['programs', 'inputs'], 'a family of contract classes over every supported type and flag combination; all default '
     'values; all indexed counts',
     'No test builds an interface.',
     ['iconscore/typing/definition.py', 'iconscore/typing/element.py', 'pyexec.py', 'ipc/proxy.py',
      'service_engine.py'],
     [('interface generation', 'iconscore/typing/definition.py'), ('wire form', 'pyexec.py')],
     'Contract classes are enumerated from a grammar (all subsets of nine kinds of members, up to three parameters, five '
     'event parameters; list and optional forms to depth four), defaults and indexed counts are symbolic.')

prop('C18', 'Ill-formed contract declarations are refused',
     'A contract class whose declarations are ill-formed is refused when it is loaded, and none of its code is run: '
     'repeated or incompatible decorators on a method (external, external read-only, payable, eventlog, interface), an '
     'external fallback, decorated install or update hooks, an event that does not start with self, lacks a type hint, '
     'has a parameter of another type than int, str, bytes, bool and Address, or has more than three or more indexed '
     'parameters than it has parameters, a method or hook parameter whose type is not one of the five basic types, a '
     'TypedDict structure of at most 16 valid fields, a list of one of these or an Optional[T] of one of these, a '
     'default other than None that is not of the basic type of the parameter, variadic, keyword-only or positional-only parameters, a payable '
     'fallback with parameters or a result, or no external method. Every class free of these is accepted.',
     ['programs'], 'all combinations of decorators up to four; all type forms of a grammar; all default values and '
     'indexed counts',
     'No test declares an invalid class.',
     ['iconscore/icon_score_base.py', 'iconscore/typing/element.py', 'iconscore/typing/__init__.py'],
     [('decorators', 'iconscore/icon_score_base.py'), ('element checks', 'iconscore/typing/element.py')],
     'Decorator combinations are enumerated completely up to length 4; types from a grammar of depth 3 (bounded); '
     'default values and indexed counts are symbolic. Known finding: isolated methods are refused.')

prop('C19', 'Accepted packages import only what is allowed',
     'If package validation accepts a package, then every import in it, in any Python file at any directory depth and at '
     'any nesting of functions and classes, is relative to the package or a plain or star import of the base package '
     'iconservice, no code in it uses exec, eval, compile or __import__ as a global or attribute name, and it contains no '
     'compiled module. A package that contains only such imports and names, with fewer than 250 constants and names per '
     'code object, is accepted. A package that is refused is not published, and nothing of a package is executed before '
     'all of it is accepted.',
     ['programs', 'inputs'], 'all import instructions with any operands, names and constants; real sources over a grammar '
     'of statements, contexts and files',
     'No test runs the validator.',
     ['iconscore/score_package_validator.py', 'service_engine.py'],
     [('import and name checks', 'iconscore/score_package_validator.py')],
     'Code objects are records with arbitrary operands, names and constants (up to four import instructions, nesting '
     'bounded to depth three), and real packages compiled by the interpreter (bounded grammar).')

prop('C20', 'The fee-sharing proportion stays between 0 and 100',
     'A contract can set the share of the fee it pays only to an integer between 0 and 100 and only outside a query; any '
     'other value is refused and leaves the former value. The proportion in force at the end of the invocation, if not '
     'zero, is reported to the node exactly once before the result, and reading it returns the value set last in this '
     'invocation.',
     ['inputs', 'histories'], 'all integers, up to two settings, query and transaction',
     'No test sets a proportion.',
     ['iconscore/icon_score_base.py', 'service_engine.py', 'ipc/proxy.py'],
     [('range check', 'iconscore/icon_score_base.py'), ('report', 'service_engine.py')],
     'All integers, two settings.')

prop('C21', 'The invoked contract is the one named, bound to its own address',
     'An invocation runs the code package named in the message, loaded from its own package description, and never code '
     'cached for another package (package directories have distinct names); a missing package is reported as contract-not-found. Code is loaded at most once per '
     'package, and each invocation gets a fresh contract object bound to the target address of that invocation. Loading '
     'an interface uses a store that refuses every access.',
     ['inputs', 'histories'], 'all sequences of up to three invocations over package paths and addresses',
     'No test loads a package.',
     ['iconscore/icon_score_mapper.py', 'iconscore/icon_score_loader.py', 'database/factory.py', 'service_engine.py'],
     [('class cache', 'iconscore/icon_score_mapper.py'), ('package description', 'iconscore/icon_score_loader.py')],
     'Paths and addresses symbolic; the file system and importlib are stand-ins that record.')

prop('C22', 'Contract code sees the true transaction, block and message',
     'During an invocation the contract sees exactly the sender, coins, origin, transaction hash, index, nonce, times, '
     'block height, owner and own address given in that invocation, in the declared types. During and after a nested '
     'invocation of another contract each contract sees only its own. Balances are those the node reports for the '
     'address asked.',
     ['inputs', 'histories', 'programs'], 'all field values; nested invocations up to depth 2',
     'No test builds a context from a message.',
     ['pyexec.py', 'iconscore/icon_score_context.py', 'iconscore/icon_score_base.py', 'service_engine.py',
      'base/transaction.py', 'base/block.py', 'base/message.py'],
     [('context construction', 'pyexec.py'), ('context stack', 'iconscore/icon_score_context.py')],
     'All field values symbolic.')

GO = 'Go code; no deductive verifier for Go is installed and the Go modules it depends on are not in the offline module ' \
     'cache, so the code cannot even be compiled here to replay a counterexample.'
na('N01', 'Validators never finalize two different blocks at one height',
   'With fewer than a third of the voting power faulty, no two correct validators finalize different blocks at the same '
   'height, across crashes and restarts. A validator never signs two conflicting votes for one height and round.',
   ['schedules', 'crash_points', 'fault_sequences'], 'all message schedules, crashes and restarts',
   'Tests run fixed schedules.', ['consensus/consensus.go', 'consensus/wal.go'],
   [('vote locking and write-ahead log', 'consensus/consensus.go')],
   'Protocol-level property over schedules and crash points; ' + GO)
na('N02', 'Block execution is deterministic and atomic',
   'Executing the same block on the same state gives the same state hash, receipts and logs on every node, also with '
   'concurrent execution. A failed transaction changes nothing but the fee.',
   ['schedules', 'inputs', 'histories'], 'all blocks, states and interleavings of the executors',
   'Tests execute a few blocks.', ['service/transition.go', 'service/transition_pe.go', 'service/state/worldstate.go'],
   [('world snapshots and locks', 'service/state/worldstate.go')], GO)
na('N03', 'The state trie is an authenticated map',
   'The trie holds exactly the last value stored per key, its root hash is determined by its content alone, and a proof '
   'verifies exactly for content of the trie.',
   ['inputs', 'histories'], 'all operation sequences and keys', 'Tests sample operations.',
   ['common/trie/ompt/mpt.go'], [('Merkle Patricia trie', 'common/trie/ompt/mpt.go')], GO)
na('N04', 'Rewards and issuance conserve coins',
   'The coins issued per period follow the issuance schedule, and the rewards distributed plus what remains equal what '
   'was issued. Claims never pay out twice.',
   ['inputs', 'histories'], 'all planet registrations, work reports and claims', 'Tests sample terms.',
   ['havah/hvhmodule/constant.go', 'havah/hvh/hvhstate/state.go'], [('reward state', 'havah/hvh/hvhstate/state.go')], GO)
na('N05', 'A node recovers every finalized block after a crash',
   'After a crash at any point and a restart, the node has every block it had finalized, with its state, and continues '
   'from there.',
   ['crash_points', 'histories'], 'all crash points', 'Tests do not crash the node.',
   ['block/manager.go', 'consensus/wal.go'], [('block store', 'block/manager.go')], GO)
na('N06', 'Java contracts run under the same isolation and charging rules',
   'The Java executor enforces the same storage, step, read-only and call rules as the node specifies, for all contract '
   'bytecode.', ['inputs', 'programs', 'histories'], 'all Java contracts', 'Tests sample contracts.',
   ['javaee/exec/src/java/foundation/icon/ee/ipc/EEProxy.java'],
   [('Java executor', 'javaee')],
   'Java code; no deductive verifier for Java is installed and gradle dependencies are not available offline, so it '
   'cannot be built or replayed here.')


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    claimed = set(open(os.path.join(V, 'tools', 'claimed')).read().split())
    checks = []
    na_ = list(NA)
    for p in P:
        if '_note' not in p:
            continue
        if p['id'] in claimed:
            checks.append({
                'property': p['id'],
                'quick_cmd': f'python3-vt check.py --property {p["id"]} --tier quick',
                'thorough_cmd': f'python3-vt check.py --property {p["id"]} --tier thorough',
                'evidence_file': f'evidence/{p["id"]}.json',
                'technique': 'contract-based deductive verification of the real Python source: verification conditions '
                             'generated by symbolic execution of the mechanically instrumented code, discharged by z3; '
                             'counterexamples replayed on CPython',
                'level': p['_level'],
                'level_note': p['_note'],
            })
        else:
            na_.append({'property': p['id'], 'reason': 'no check has been built for it yet'})
    m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && test -x /opt/venv/bin/python',
         'checks': checks, 'not_applicable': na_,
         'notes': 'No hooks: the checks instrument the source in memory. See DESIGN.md.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
