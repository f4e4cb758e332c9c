# What each check runs. parts: scenario source, build variant, number of simulated runs per tier.
COMPONENTS = dict(
    real=['all of /repo/src and /repo/include, compiled from the working tree without modification'],
    stub=['operator new/delete (pass-through with injectable failure and poisoned fresh memory)', 'getrandom, getentropy, /dev/urandom, std::random_device when a scenario installs an entropy source'],
    assumptions=['OpenSSL 3.0 (reference implementation) is correct', 'one seed is one execution: every choice is drawn from VERIF_SEED'])

def part(src, variant='fast', quick=1000, thorough=20000, **k):
    return dict(src=src, variant=variant, quick=quick, thorough=thorough, **k)

DISTINCT = ' A run is a plan (explicit operations and faults) generated from (VERIF_SEED, run number); distinct_nontrivial counts different hashes of '
FILES = ['open, stat and read of the CA bundle path (scripted contents, errors, short and interrupted reads)']
THREADS = ['thread scheduling: real threads parked and released one at a time at every basic block, memory access class, mutex, guard and file seam; the seeded scheduler picks who runs', 'pthread mutexes, condition variables and static-initialisation guards (simulated, with deadlock detection)']
NET = ['the network (in-process, faults decided by the plan)']

PROPS = {
 'C01': dict(parts=[part('c01', 'sched', quick=900, thorough=60000)],
   rule='2-4 simulated threads run mixes of 17 kinds of operations on their own objects and on shared read-only ones; every result is compared with the same operation run alone.' + DISTINCT + 'the schedule taken (thread switches and where they happened) and the operations.',
   timeunit='scheduler steps', stub=THREADS, must_reach=['sched.preemption']),
 'C02': dict(parts=[part('c02', 'sched', quick=2500, thorough=60000)],
   rule='2-4 simulated threads request the system trust store for the first time while load attempts fail (open, stat, read errors, allocation failures); identity, completeness, reporting and recovery are checked.' + DISTINCT + 'the schedule taken and the faults.',
   timeunit='scheduler steps', stub=THREADS + FILES, must_reach=['sched.preemption', 'load attempt failed', 'allocation failure', 'recovered']),
 'C03': dict(parts=[part('c03', quick=3000, thorough=300000), part('c03t', 'sched', quick=5000, thorough=100000)],
   rule='draws of every element width and length against a scripted entropy source with short, interrupted and failed reads, forks and restarts; every drawn byte must come from entropy issued for that draw alone. Second part: the same with simulated threads.' + DISTINCT + 'operations, sizes and faults (and the schedule in the second part).',
   stub=THREADS, must_reach=['sched.preemption']),
 'C04': dict(parts=[part('c04', quick=4000, thorough=200000, cpu=140)],
   rule='histories of add/read/copy/assign over several live digest objects, compared with an independent incremental digest after every read; fixed runs beyond 2^29 and 2^32 bytes.' + DISTINCT + 'operation sequence, objects and segment lengths.', must_reach=['message beyond 2^32 bytes', 'read in between', 'copied object']),
 'C05': dict(parts=[part('c05', quick=60000, thorough=2000000)],
   rule='two peers transform a stream split differently on each side, with copies in mid-block, mixed directions and block counters up to 2^32; compared with OpenSSL ChaCha20.' + DISTINCT + 'operation sequence and segment lengths.'),
 'C06': dict(parts=[part('c06', quick=25000, thorough=600000)],
   rule='record channel between two peers; the network loses, duplicates, reorders, replays, corrupts, truncates, extends and cross-delivers records; every record compared with OpenSSL AES-GCM and every verdict with the model (accept iff it is the record of this position).' + DISTINCT + 'operation/fault sequence and lengths.', stub=NET, must_reach=['bit flip in ciphertext', 'record replayed or late']),
 'C07': dict(parts=[part('c07', quick=30000, thorough=600000)],
   rule='all data is zero so that output is key stream; every 16-byte block of a session is collected, including what calls interrupted by an allocation failure exposed, and no block may appear twice.' + DISTINCT + 'operation/fault sequence and lengths.', must_reach=['allocation failure inside a call', 'more than 65536 records']),
 'C08': dict(parts=[part('c08', quick=20000, thorough=600000)],
   rule='message sequences between two AES-CTR peers compared with counter mode built from OpenSSL AES blocks; counters about to wrap, any message number, wrong key and IV lengths.' + DISTINCT + 'operation sequence and lengths.'),
 'C09': dict(parts=[part('c09', quick=25000, thorough=400000)],
   rule='two peers with scripted entropy exchange public values and handshake messages over a network that corrupts, replaces, loses, duplicates and reorders them; every derived value compared with a reference derivation of what that peer saw, and across peers.' + DISTINCT + 'messages, faults, hash and sizes.', stub=NET, must_reach=['peers agree', 'peers see different handshakes', 'entropy: error']),
 'C10': dict(parts=[part('c10', quick=2000, thorough=100000)],
   rule='signatures made by the library and by OpenSSL cross a network that corrupts, truncates, extends, swaps and replays them; every verdict compared with OpenSSL; salts traced to entropy issued for that signature.' + DISTINCT + 'operations, keys, schemes and faults.', stub=NET),
 'C11': dict(parts=[part('c11', quick=2000, thorough=100000)],
   rule='certificate hierarchies minted with OpenSSL presented in any order with loss, duplication, damage and forgery at any clock value; each decision compared with a reference model of the chain rule.' + DISTINCT + 'hierarchy, presentation and faults.', stub=NET + ['the clock (the time argument)'] + FILES, must_reach=['genuine chain', 'no chain']),
 'C12': dict(parts=[part('c12', quick=3000, thorough=100000)],
   rule='creation of the store from a virtual bundle file with scripted opens, stats and reads (errors, short and interrupted reads, truncation, zero-filled tails, wrong sizes) followed by retries; content and decisions compared with the bundle.' + DISTINCT + 'bundle composition and faults.', stub=FILES, must_reach=['complete store', 'read error', 'bundle truncated']),
 'C13': dict(parts=[part('c13', 'asan', quick=1800, thorough=100000, cpu=40)],
   rule='valid objects damaged by 21 kinds of alteration (bit flips to element-aware edits), used under AddressSanitizer in exact-size buffers, three times with different contents of fresh memory; outcome, exceptions, memory requested and blocks released are compared.' + DISTINCT + 'object kind and alterations.', stub=FILES),
 'C14': dict(parts=[part('c14', quick=600, thorough=60000, share=0.6), part('c14', 'asan', quick=300, thorough=20000, share=0.4)],
   rule='every operation run once undisturbed, then with each (or a sample) of its allocations failing; long-lived digests, sessions, keys and the store see failures in mid-history; results, balance of allocations and later behaviour compared with a reference. Second part: the same under AddressSanitizer.' + DISTINCT + 'operations and failure positions.', stub=FILES, must_reach=['allocation failure', 'allocation failure in a long-lived object']),
 'C15': dict(parts=[part('c15', quick=600, thorough=60000)],
   rule='discrete-event simulation of client and server (library on both sides, or the reference implementation on one) with explicit network, crash, clock, entropy, memory and impostor faults; data delivered, handshake completion and progress within 60 simulated seconds after the last fault are checked.' + DISTINCT + 'configuration and fault plan.', timeunit='simulated milliseconds (and deliveries)', stub=NET + ['timers and clocks (discrete-event queue)', 'the application protocol around the library (handshake state machine, retransmission)', 'impostor and, in two of three runs, one peer (OpenSSL)'] + FILES,
   must_reach=['impostor answers', 'message lost', 'server crash', 'client crash', 'clock jump', 'handshake completed', 'key update received']),
 'C16': dict(parts=[part('c16', quick=20000, thorough=400000, share=0.6), part('c16', 'asan', quick=800, thorough=20000, share=0.4)],
   rule='encoded text passes through relays that re-wrap, convert line ends, strip padding, switch alphabets, insert foreign characters and truncate; the decoding must be the original (or its prefix). Second part: the same under AddressSanitizer.' + DISTINCT + 'data lengths, formats and relay sequence.', stub=['relays (in-process)']),
 'C17': dict(parts=[part('c17', quick=1500, thorough=100000)],
   rule='scripted entropy offers primes, composites, Carmichael numbers and strong pseudoprimes; result and number of draws compared with the first offered prime by OpenSSL; failures at any draw.' + DISTINCT + 'size, offers and faults.'),
}
