"""Per-property texts and budgets used by check.py."""
import os

CAP_Q = 240      # seconds after which a quick run stops starting new cases (normally far below)
CAP_T = 2400
# multiplies the quick case counts
SCALE = {
    "C01": 4, "C02": 2, "C03": 4, "C04": 4, "C05": 5, "C06": 6, "C07": 8, "C08": 20, "C09": 10, "C10": 8, "C11": 20,
    "C12": 8, "C13": 6, "C14": 3, "C15": 8, "C16": 20, "C17": 20, "C18": 4, "C19": 20, "C20": 6, "C21": 4, "C22": 5, "C23": 2, "C24": 5, "C25": 3, "C26": 8,
}

RULES = {
    "C01": "Random histories of insert/overwrite/bulk insert/remove/bulk remove/clear/shrink over 12 combinations of signature type, id type (with good and useless hashes) and container, from a handful to tens of thousands of ids and signatures of up to thousands of hashes, plus buckets of thousands of ids; after every step queries (stored, near, boundary and constant-derived signatures) are compared with a map model; some questions stand and are asked again after later steps. Non-trivial: at least one checked query had a match while other live ids did not match or were filtered out by the threshold; distinct by the case's fingerprint of observed results.",
    "C02": "The same histories; at every checkpoint every query form is asked the same question and compared with the model and with each other, standing questions again and again. Non-trivial: a checked query with at least two matches and at least one candidate below the threshold; distinct by results.",
    "C03": "The same histories weighted towards removals; after every step size, lookups, the signature map, the results of removals and the bucket count of every band are compared with the model. Non-trivial: a comparison with at least two live ids; distinct by the case's fingerprint of observed sizes.",
    "C04": "A random prior history and batch (fresh, repeated, pre-existing ids) applied in bulk on pools of 1-8 threads to one index and pair by pair to a second; batches of up to more than 65536 pairs with ids repeated at power-of-two distances; all observers compared, batch queries compared with single ones, bulk signatures with single ones, also where one token list is hundreds of times longer than the others. Non-trivial: a batch of at least two pairs (or token lists).",
    "C05": "One history applied in lockstep to hash set, vector and small vectors of several inline sizes and to both constructors; all observers compared after each step; containers also driven alone against a set, and copied into sets that hold part of their ids already; hot buckets of over a thousand ids that overlap in part between bands. Non-trivial: a compared state with at least two ids and a non-empty answer (for containers alone: more than three operations).",
    "C06": "Random states; all observers snapshotted before and after shrink_to_fit, shrink_to(any) and pre-sizing (up to 300,000 entries), capacity bounds checked, history continued. Non-trivial: a maintenance call compared on an index of at least two ids.",
    "C07": "Random states; wrong-length signatures offered to each insertion form at each batch position and to queries; panic required, observers compared before/after, history continued. Non-trivial: a rejection on an index of at least two ids.",
    "C08": "Random token sets given as permutations, with duplicates, as split unions, from different iterator types, hasher instances, clones and separate processes; equality, union law and per-position minimum compared. Sets of up to 150,000 tokens and sets whose base hashes have structure (equal halves, progressions, extremes) against the minimum over their parts. Token streams may use other hashers, call themselves recursively or panic while they are read; bulk calls get lists of very uneven lengths. Non-trivial: at least two distinct tokens and two positions (bulk cases: two token lists; process cases: always).",
    "C09": "Pairs of sets with known Jaccard similarity over 12 kinds of tokens (random, sequential, numeric, long shared heads, tails and middles, non-ASCII...), 4 widths, several base hashers, sizes 2-500; bias, RMS error and each position's match rate compared with binomial bounds (6 sigma plus a stated allowance). One evaluation = 120-300 pairs, or tens of thousands of single tokens whose signatures must differ. Non-trivial: every evaluation (each is a full batch of pairs compared with its bounds).",
    "C10": "Signature pairs with an exact number of equal positions (0..n) at chosen places, thresholds at, just above and just below k/n; all similarity functions compared with exact arithmetic. Non-trivial: neither all equal nor all different.",
    "C11": "Grid and random (similarity, hashes, probability) triples; the returned bands and width checked for fit, probability and maximality. Non-trivial: width above 1; distinct by result and arguments.",
    "C12": "Random groups of ids (repeats, absent ids) of random indexes; centroid bands counted against the group. Groups range to 65537 ids, with counts on both sides of powers of two. Non-trivial: a band with two or more different values of which one occurs at least twice.",
    "C13": "Random block counts, distances and widths; signatures placed at exact distances with bit flips concentrated, spread and on block borders; queries compared with a linear scan, standing ones again after later steps. Non-trivial: a query having stored ids on both sides of the distance.",
    "C14": "Random SimHash histories (bulk, repeated ids) on several pools; every query form compared with a linear scan and with each other, and size with the number of ids. Large batches of queries on several pools are compared with the scan, and some questions are repeated after later steps. Non-trivial: a query with at least two matches.",
    "C15": "Random token multisets up to tens of thousands of tokens (a few up to tens of millions of signatures); signature bits compared with the vote over single-token signatures, centroid bits with the majority, equality across order, instances and processes, and mean distance against the angle. Non-trivial: more than two tokens of at least two kinds, or at least two signatures.",
    "C16": "Random, structured and bit-pattern pairs of 64/128-bit values; every helper compared with bit-by-bit counting. Non-trivial: values differ in some but not all bits; distinct by the values.",
    "C17": "Random and constant-derived Unicode texts and token lists, every n and range; yields compared with an independent definition over characters; every code point tried around words. The iterators are also driven through nth, skip, step_by, fold, last, count and size_hint. Non-trivial: at least two words or n-grams expected.",
    "C18": "Random interleavings of insert, load_from_lines and both file loads with hostile files (CRLF, invalid UTF-8, empty lines, missing newline, faults at every position, directories); sizes, counts and query multisets compared with a one-by-one reference, some queries again after later loads. Non-trivial: more than three documents stored.",
    "C19": "Random neighbour relations (and MinHash ones), orders, minimum sizes and call sequences; the result compared with a greedy model. Non-trivial: at least two clusters expected.",
    "C20": "Random relations and MinHash indexes clustered by 1-16 threads, by cluster_par and by threads sharing one clusterer from a barrier, by several clusterers at once on the same points and by clusterers resumed on partly clustered points, also with hubs that keep one thread busy, with delays injected at allocations and queries; the partition invariants are checked on every result. Non-trivial: at least two clusters; distinct by the case's fingerprint of the resulting partition.",
    "C21": "Bulk, clustering, reader, signature and hostile-call workloads (mismatched lengths, empty inputs, ids whose Hash/Eq/Clone panic, lookups that panic during clustering) and workloads with large inputs (documents, signatures and batches of hundreds to thousands of elements, full buckets, parallel file loads) run natively with results compared to one thread, then again under ThreadSanitizer (4 pool threads, injected delays), AddressSanitizer and Miri (both without debug assertions, as in a release build; tree borrows, several scheduler seeds); any report is a violation. Non-trivial: every case (all but the hostile calls run at least two threads).",
    "C22": "Random histories of Python calls over every hash size, container and parameterisation, batches on both sides of 100 and up to thousands, failing analyzers, invalid arguments; answers compared with a model over the signatures of the documents. Several Python threads, each with its own index, run histories at once; earlier (id, document) pairs are inserted again; questions of one audit are asked again in the next. Non-trivial: a query with a match and a non-match.",
    "C23": "Random histories of Python SimHash calls over both widths, both analyzer kinds and all query forms; answers compared with a linear scan over signatures, again in the next audit for some. Several Python threads, each with its own index, run histories at once. Non-trivial: a query with a match and a non-match.",
    "C24": "Random documents and options; features computed independently in Python and given through a callable analyzer compared with the built-in analyzers (signatures and query results), case folding, self-queries on every path, documents up to tens of thousands of characters; word n-grams up to 12 words, estimates against the true sets, exact votes of repeated n-grams, documents too short for any n-gram, and irrelevance of separators. Non-trivial: a document with at least one feature.",
    "C25": "Rounds of churn on indexes of every container while a counting allocator measures live bytes; levels compared with what fresh indexes of the largest content need, with the residue after emptying and shrinking, and with zero after dropping indexes, points and clusters; SimHash indexes overwritten singly and in bulk likewise. Surges of ids into buckets that stay in use, large tables emptied to a few ids, and ids that take turns in two tables are measured the same way. Non-trivial: more than ten overwrites and removals (other groups: always).",
    "C26": "Hundreds to thousands of pairs of token sets of one known similarity pass through the whole pipeline: parameters computed for a similarity, number of hashes and probability, hasher (16, 32, 64 bit, two base hashers) or string index, single or bulk signatures and insertion, query; the number of pairs found is compared with the collision probability of the configuration and with the probability asked for (6 sigma of sampling error plus 0.8 % of the pairs plus 2). Non-trivial: the expected probability lies between 0.01 and 0.999; distinct by observed count and configuration.",
}
ASSUME = {
    "C09": ["statistical bounds: 6 sigma plus 0.002 (32/64 bit), 0.004 (16 bit), 0.03 one-sided (8 bit); at 8 and 16 bits a few positions and pairs may agree too often"],
    "C15": ["tied bits are unconstrained", "the angle is checked on averages with stated bounds"],
    "C21": ["Miri runs with tree borrows and permissive provenance and without leak checking", "sanitizers see only the schedules that occurred"],
    "C26": ["statistical bounds: 6 sigma plus 0.8 % of the pairs plus 2; at 16 bits only too few answers are a violation"],
    "C25": ["memory is what the global allocator sees"],
}


def known_findings(prop):
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known-findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property=%s " % prop):
                out.append(line.split(" ", 2)[2].strip())
    return out
