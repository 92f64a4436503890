#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single place where both are kept)."""
import importlib, json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = 'src/buzz/'
P = []


def prop(i, title, statement, over, qtext, why, files, mech, state=(), observe=(), tech='', note='', na=None):
    P.append(dict(id=i, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, state=state,
                  observe=observe, tech=tech, note=note, na=na))


ASAN = 'ASan/UBSan executions of the real compiler and VM; '

prop('B01', 'Programs compute what the language defines',
     'Every program accepted by the compiler produces the results the language defines: operators on every combination of types and on edge values '
     '(wrap-around, division, modulo, shifts, comparison of mixed types), precedence, control flow, scoping, closures capturing variables, methods with self, and tables. '
     'This also holds for functions the host calls after the script ended, with the arguments the host passed.',
     ['programs', 'inputs'], 'all programs over the whole language, all operand values',
     'The test scripts run a few dozen fixed lines and mostly check that nothing crashes; the results depend on the combination of compiler, assembler and VM over all programs.',
     [B + 'buzzparser.c', B + 'buzzlex.c', B + 'buzzasm.c', B + 'buzzvm.c', B + 'buzztype.c'],
     [('code generation', B + 'buzzparser.c'), ('instruction execution', B + 'buzzvm.c (buzzvm_step and the operators)'), ('comparison', B + 'buzztype.c (buzzobj_cmp, buzzobj_eq)')],
     tech='differential monitor: traces against a reference interpreter')
prop('B02', 'Garbage collection never changes what a program observes',
     'Whenever the collector runs, every value that the script, the host or a pending message can still reach stays intact: a program and a swarm of robots behave exactly '
     'the same whether collections are frequent, rare or absent. No execution ever touches memory that was released.',
     ['programs', 'schedules', 'histories'], 'all programs and all points at which a collection can happen',
     'A collection only happens at thresholds that the small test scripts hardly reach, never at chosen points.',
     [B + 'buzzheap.c', B + 'buzzvm.c', B + 'buzzstrman.c', B + 'buzzvstig.c'],
     [('mark and sweep', B + 'buzzheap.c (buzzheap_gc)'), ('string sweep', B + 'buzzstrman.c')],
     tech='metamorphic monitor over forced collection schedules under ASan')
prop('B03', 'Memory stays bounded by live data and is fully released',
     'A robot that runs forever with a bounded amount of reachable data uses a bounded amount of memory: unreachable values, delivered messages, expired membership information and replaced handlers are released. '
     'Destroying a VM at any point of any history releases everything it allocated.',
     ['programs', 'histories'], 'all long-running workloads with bounded live data; all points at which a VM may be destroyed',
     'The tests run short scripts once and never look at memory.',
     [B + 'buzzheap.c', B + 'buzzvm.c', B + 'buzzinmsg.c', B + 'buzzoutmsg.c', B + 'buzzswarm.c', B + 'buzzvstig.c', B + 'buzzstrman.c'],
     [('collection threshold', B + 'buzzheap.c'), ('destruction', B + 'buzzvm.c (buzzvm_destroy)')],
     tech='allocation monitor over lifetimes and steady states')
prop('B04', 'Runtime errors are precise, located and contained',
     'An operation that the language does not allow stops the script at once with the error code and a message for its cause, located at the script file and line of the failing statement; all effects before it are kept and none after it happen. '
     'The VM then stays in the error state under every later host operation, and can still be inspected and destroyed.',
     ['programs', 'fault_sequences', 'histories'], 'all failing operations at all points of a program, including inside callbacks, handlers and host functions',
     'No test provokes a runtime error and looks at what is reported.',
     [B + 'buzzvm.c', B + 'buzzvm.h', B + 'buzzdebug.c', B + 'buzzmath.c', B + 'buzzneighbors.c', B + 'buzzvstig.c', B + 'buzzswarm.c'],
     [('error state', B + 'buzzvm.c (buzzvm_seterror)'), ('location', B + 'buzzdebug.c')],
     tech='error-injecting programs with a reference interpreter as oracle')
prop('B05', 'No received bytes can break a robot',
     'Whatever bytes arrive from other robots, in any order and number, processing them never corrupts memory, crashes, hangs or leaves the VM unusable, and well-formed messages around them are still handled. '
     'A message that is truncated or of unknown type has no effect at all.',
     ['inputs', 'fault_sequences', 'histories'], 'all byte strings as messages, in all states of the receiving robot',
     'The tests feed the VM no hand-made messages.',
     [B + 'buzzvm.c', B + 'buzzinmsg.c', B + 'buzztype.c', B + 'buzzmsg.c', B + 'buzzswarm.c', B + 'buzzvstig.c', B + 'buzzneighbors.c'],
     [('message dispatch', B + 'buzzvm.c (buzzvm_process_inmsgs)'), ('deserialization', B + 'buzztype.c (buzzobj_deserialize)')],
     tech='structure-aware message fuzzing under ASan/UBSan with no-effect monitor')
prop('B06', 'Values arrive at other robots exactly as sent',
     'A value sent by broadcast or through a virtual stigmergy is observed by the script of every receiver as equal to the value sent: integers, floats including extreme and non-finite ones, strings, nested tables of any shape, and functions. '
     'This holds over several hops, and what cannot be sent arrives as nil without affecting the rest.',
     ['inputs', 'histories'], 'all values of all types and nestings',
     'The tests exchange no values between VMs.',
     [B + 'buzztype.c', B + 'buzzmsg.c', B + 'buzzneighbors.c', B + 'buzzvstig.c', B + 'buzzoutmsg.c'],
     [('value serialization', B + 'buzztype.c (buzzobj_serialize, buzzobj_deserialize)'), ('numbers on the wire', B + 'buzzmsg.c')],
     tech='round-trip monitor over random values between real VMs')
prop('B07', 'Virtual stigmergies converge',
     'Whatever messages the network lost, duplicated, delayed or reordered, once connected robots keep reading over a reliable network they all agree on every key of a shared stigmergy. '
     'The agreed entry is the winner among all writes ever made: the newest, ties decided by the conflict rule in force (by default the robot with the greater id). A robot that reads learns at least what its neighbours know, even if they do not read themselves, and no robot ever goes back to an entry older than one it has stored.',
     ['schedules', 'fault_sequences', 'histories'], 'all interleavings of writes, reads, losses, duplications and delays, all connected topologies',
     'The tests run a single robot without a network.',
     [B + 'buzzvstig.c', B + 'buzzvm.c', B + 'buzzoutmsg.c', B + 'buzzinmsg.c'],
     [('handling of PUT and QUERY', B + 'buzzvm.c (buzzvm_process_inmsgs)'), ('conflict resolution', B + 'buzzvstig.c')],
     tech='offline convergence checker over logged histories of simulated swarms with injected faults')
prop('B08', 'Each robot follows the stigmergy protocol',
     'Every local operation on a stigmergy and every received write or query has exactly the effects the protocol defines: what get, size and foreach return, which entry is stored, which messages are sent or forwarded, and when the conflict and lost-conflict handlers are called, with which arguments and what is done with their result. '
     'Deletion (putting nil) is a write like any other and hides the key. Writing while iterating visits every entry that stays.',
     ['histories', 'inputs'], 'all sequences of local operations and received messages',
     'The tests use one robot, so no write ever meets a foreign one.',
     [B + 'buzzvstig.c', B + 'buzzvm.c', B + 'buzzoutmsg.c'],
     [('put/get', B + 'buzzvstig.c (buzzvstig_put, buzzvstig_get)'), ('handlers', B + 'buzzvstig.c (buzzvstig_onconflict_call, buzzvstig_onconflictlost_call)')],
     tech='online checker: every operation against a protocol model')
prop('B09', 'Swarm membership and context follow the script',
     'Membership queries, swarm operations (join, leave, select, others, union, intersection, difference) and exec blocks behave as set operations over the memberships of the robot: a block runs exactly when the robot is a member, and inside it the current swarm and its enclosing ones are reported correctly. '
     'However a block is left (end, early return, nested blocks and calls), the previous context is restored.',
     ['programs', 'histories'], 'all nestings and sequences of swarm operations',
     'The one swarm test script exercises a fixed sequence.',
     [B + 'buzzswarm.c', B + 'buzzvm.c'],
     [('swarm stack', B + 'buzzvm.c (buzzvm_pushs, return instructions)'), ('membership', B + 'buzzswarm.c')],
     tech='online checker against a membership and context model')
prop('B10', 'Robots learn and forget their neighbours\' memberships',
     'After membership messages were lost or delayed, one announcement period of reliable communication makes the kin and non-kin of every robot in every swarm exactly right; with a reliable network one exchange after each change suffices. '
     'Memberships of robots that stay silent are forgotten after the documented time and not before.',
     ['schedules', 'fault_sequences', 'histories'], 'all histories of joins, leaves and membership messages with loss, duplication and delay',
     'The tests run a single robot.',
     [B + 'buzzswarm.c', B + 'buzzvm.c', B + 'buzzoutmsg.c', B + 'buzzneighbors.c'],
     [('membership table and aging', B + 'buzzswarm.c (buzzswarm_members_*)'), ('kin and nonkin', B + 'buzzneighbors.c'), ('announcement', B + 'buzzvm.c (buzzvm_process_outmsgs)')],
     tech='offline checker over simulated swarms; online membership model')
prop('B11', 'Broadcasts reach each listener exactly once, in order',
     'Each delivered broadcast whose topic a robot listens to is handed to the listener registered last, exactly once per delivery, with its topic, its value and the id of its sender, in the order of delivery per sender; no other callback happens. '
     'What leaves a robot is what its script broadcast, in order.',
     ['schedules', 'fault_sequences', 'histories'], 'all histories of listen, ignore, broadcast and deliveries with loss, duplication, delay and reordering',
     'The tests run a single robot without messages.',
     [B + 'buzzneighbors.c', B + 'buzzvm.c', B + 'buzzinmsg.c', B + 'buzzoutmsg.c'],
     [('listeners', B + 'buzzneighbors.c (listen, ignore)'), ('dispatch', B + 'buzzvm.c (buzzvm_process_inmsgs)'), ('queues', B + 'buzzinmsg.c, ' + B + 'buzzoutmsg.c')],
     tech='offline exactly-once/order checker over logged sends, deliveries and callbacks')

exec(open(os.path.join(V, 'tools', 'more.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'more.py')) else None


def main():
    sys.path.insert(0, os.path.join(V, 'lib'))
    sys.path.insert(0, os.path.join(V, 'checks'))
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
            if p['state']:
                a['state'] = [dict(name=n, meaning=m) for n, m in p['state']]
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                    quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'], anchors=a)) + '\n')
    m = dict(version=1, setup_cmd='python3 lib/build.py asan plain',
             hooks=dict(guard='none', enable='no hooks: the harness observes the VM through its public API and links the sources as they are', source_commits=[]),
             checks=[], not_applicable=[dict(property=p['id'], reason=p['na']) for p in P if p['na']])
    for p in P:
        if p['na']:
            continue
        mod = importlib.import_module(p['id'].lower())
        note = 'Held on all executions of the workload: ' + mod.RULE
        if getattr(mod, 'ASSUMPTIONS', None):
            note += ' Assumes: ' + '; '.join(mod.ASSUMPTIONS) + '.'
        m['checks'].append(dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'], thorough_cmd='python3 check.py %s thorough' % p['id'],
                                technique='runtime monitoring: ' + p['tech'], level='exploration', level_note=note))
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
