DED = "contract-based deductive verification (Verus) of functions extracted from the current source"
STD_MAP = "std HashMap/BTreeMap/BTreeSet/VecDeque behave as vstd's contracts for them say"
PROPS = {
    "C01": {
        "units": ["wire"],
        "technique": DED,
        "note": "The JavaScript half is only run, bounded (no deductive verifier for it is installed). Writer, reader, size functions and the codecs of JsValue and JsJson are proved against a tree-shaped specification of the documented layout; the round trip through to_snapshot and from_block is a proved function over those contracts. Trusted: the allocator and the raw copy under MemoryBlock (whose own functions are under contract, see C39), to_be_bytes/from_be_bytes and String::from_utf8 of std, vstd's HashMap contracts, Verus and Z3, the extraction.",
        "theorems": ["theorem_round_trip", "round_trip"],
        "harness": [{"pkg": "vertigo", "bin": "c01", "bound": "60 000 (thorough: up to 3 000 000) random values up to depth 6, the boundary values of every kind, and runs of up to 70 000 items"},
                    {"pkg": "js", "bin": "codec", "bound": "the JavaScript half, as shipped (wasm_run.js) and as written (src_js), over a stand-in browser: 250 fixed and up to 6 000 (thorough: 300 000) random values of every kind read, written, passed to calls, answered to requests and events, under memory that grows"}],
        "secs": (10, 120),
        "assumptions": ["std integer and float byte conversions are big-endian and lossless", STD_MAP],
    },
    "C02": {
        "units": ["wire"],
        "technique": DED,
        "note": "get_size is proved equal to the length of what write_to writes, for every value below 4 GiB, and the block of to_snapshot to have exactly that length; MemoryBlock::write is proved to write what it is given where it is asked to, and to refuse only what does not fit. Trusted as for C01.",
        "theorems": [],
        "harness": [{"pkg": "vertigo", "bin": "c02", "bound": "60 000 (thorough: up to 3 000 000) random values, sizes compared with an independent encoder"}],
        "secs": (10, 120),
        "assumptions": [STD_MAP],
    },
    "C03": {
        "units": ["decoder"],
        "technique": DED,
        "note": "Every typed read of the list decoder, the list constructor, the end check and JsValue::convert are proved against the sequence of remaining items. Trusted: vstd's VecDeque contracts, VecDeque::is_empty, Verus and Z3, the extraction; enumerate() is verified in an eager form.",
        "theorems": [],
        "harness": [{"pkg": "vertigo", "bin": "c03", "bound": "every read on every kind of item, and 60 000 (thorough: 2 000 000) random sequences of up to 6 reads"}],
        "secs": (10, 60),
        "assumptions": [STD_MAP],
    },
    "C04": {
        "units": ["element_children"],
        "technique": DED,
        "note": "Every operation of the child list is proved, for all histories, to act on the abstract sequence as specified. Trusted: Verus and Z3, vstd's HashMap contracts, an assumed contract for HashMap::get_mut, the extraction (drops comments, visibility, attributes and log statements).",
        "theorems": [],
        "harness": [{"pkg": "plain", "bin": "c04", "bound": "all valid histories of length 4 (thorough: 6) over 4 ids, and random histories of up to 65 operations over up to 13 ids"}],
        "secs": (10, 120),
        "assumptions": ["std HashMap behaves as vstd's map contract (and the assumed get_mut contract)"],
    },
    "C08": {
        "units": ["graph"],
        "technique": DED,
        "note": "Replacement of a node's read set, including the recursive unlinking and the report of changed nodes, is proved on acyclic graphs against the edge relation. Trusted: vstd's BTreeMap/BTreeSet contracts with the assumed contracts listed, Verus and Z3, the extraction. GraphConnections only wraps the proved functions in a RefCell.",
        "theorems": [],
        "harness": [{"pkg": "vertigo", "bin": "c08", "bound": "12 000 (thorough: 500 000) random histories of up to 15 replacements over up to 11 nodes"}],
        "secs": (10, 120),
        "assumptions": [STD_MAP, "dependency graphs are acyclic (a cycle of computed values panics on evaluation)"],
    },
    "C09": {
        "units": ["graph"],
        "technique": DED,
        "note": "get_all_deps is proved to return exactly the reachable set on every finite graph. Trusted as for C08.",
        "theorems": [],
        "harness": [{"pkg": "vertigo", "bin": "c09", "bound": "6 000 (thorough: 200 000) random graphs of up to 15 nodes, cycles included, and chains and rings of up to 40 nodes"}],
        "secs": (10, 120),
        "assumptions": [STD_MAP],
    },
    "C05": {
        "units": ["elements"],
        "technique": DED,
        "note": "Every operation of AllElements, feed over whole batches, get_response and get_css are proved against a browser model of the same commands (insertBefore moves a node, removal detaches it), on the proved child lists and attribute maps. Trusted: vstd's HashMap and VecDeque contracts, String cloning and concatenation of std, Verus and Z3, the extraction.",
        "theorems": [],
        "harness": [{"pkg": "cli", "bin": "c05", "bound": "12 000 (thorough: 400 000) random valid histories of up to 62 commands, the whole document compared after every batch"}],
        "secs": (10, 120),
        "assumptions": [STD_MAP, "nodes are created before use, under fresh identifiers, and not used after removal; no node is put below itself"],
    },
    "C07": {
        "units": ["ordered_map"],
        "technique": DED,
        "note": "new, set, remove and get_iter are proved against a key sequence and a map for all histories. Trusted: vstd's HashMap contracts, filter/cloned/collect and retain of std in the forms listed as rewrites, Verus and Z3, the extraction.",
        "theorems": [],
        "harness": [{"pkg": "cli", "bin": "c07", "bound": "30 000 (thorough: 600 000) random histories of up to 20 operations over up to 7 keys"}],
        "secs": (10, 60),
        "assumptions": [STD_MAP],
    },
    "C14": {
        "units": ["dom_list"],
        "technique": DED,
        "note": "reorder_nodes with all it is made of (get_pairs_top, get_pairs_bottom, get_pairs_middle, CacheNode, find_first_dom, move_markers) and the update made by render_list are proved, for every list, to keep the invariant that the children of the parent are what was before, one node per item in order, the list's marker and what was behind; each node comes from an item of the same key, and of each key exactly as many are made anew as there were too few. dom_fragment is proved to place its nodes in order. Trusted: insert_before moves a node (a marker with its contents) before a node that has nothing placed before it, a dropped node is removed, rendering gives a node not in use, equal items have equal keys, Verus and Z3, the extraction; mounting and unmounting of markers are covered by the bounded run only.",
        "theorems": ["lemma_update", "lemma_result", "lemma_dropped"],
        "harness": [{"pkg": "vertigo", "bin": "c14", "bound": "every pair of lists of up to 3 items over 3 keys, rendered as elements, texts, fragments, values and lists; lists of up to 1 500 items; 2 500 (thorough: 60 000) random histories; compared with the DOM built from what the host receives"}],
        "secs": (10, 120),
        "assumptions": ["the program's key and render functions are pure", "insert_before of a marker moves its contents with it"],
    },
    "C15": {
        "units": ["dom_batch"],
        "technique": DED,
        "note": "sort_commands is proved to return the commands that do not remove nodes in recorded order followed by those that do, and flush to send exactly the encodings of that; theorem_permutation states that this is a permutation. Trusted: the encoding of one command is a function of it (proved separately for C31), Verus and Z3, the extraction; interior mutability is verified as exclusive access.",
        "theorems": ["theorem_permutation"],
        "harness": [{"pkg": "vertigo", "bin": "c15", "bound": "5 000 (thorough: 120 000) random batches of up to 1 000 commands, compared with what the host receives"}],
        "secs": (10, 60),
        "assumptions": ["the host call delivers the list it is given"],
    },
    "C16": {
        "units": ["dom_batch"],
        "technique": DED,
        "note": "StateInitiation and Commands (add, flush, request start, request end) are proved against the counter of open requests, the buffer of withheld commands and the history of what was sent. DriverDom::new is proved to wire the start of a request to fetch_up and its end to fetch_down, and to keep both subscriptions. Trusted as for C15.",
        "theorems": ["theorem_permutation"],
        "harness": [{"pkg": "vertigo", "bin": "c16", "bound": "every valid schedule of request starts, ends, commands and flushes up to length 6 (thorough: 9) and 2 000 (60 000) random ones of up to 65 steps"}],
        "secs": (10, 120),
        "assumptions": ["a request ends only after it has started", "fewer than 2^32 requests are open at once"],
    },
    "C10": {
        "units": ["graph", "reactive", "ids"],
        "technique": DED,
        "note": "GraphValue (calculate, read, refresh, restore, drop, registration), Graph, Context, Value and Computed (with map, the conversions from values and constants, equality and Reactive) and Dependencies (transaction, report_set) are proved to keep the invariant that every kept calculated value equals what its function yields on the current sources and is linked to what it read; Computed::get returns that value. That ids given out are all different (nodes', values' and computed values', caches', keyed maps') is proved in unit ids from the static counters' start and fetch_add. Trusted: the program's functions are pure, acyclic and read only through Value::get and Computed::get (that is their induction hypothesis), the program keeps what its functions read; interior mutability is modelled by one explicit state; Verus and Z3, the extraction.",
        "theorems": ["lemma_set", "lemma_replace", "lemma_calculated"],
        "harness": [{"pkg": "vertigo", "bin": "c10", "bound": "40 000 (thorough: 3 000 000) random programs over small networks of values, computed values with changing dependencies, and subscribers; fixed networks of up to 300 subscribers, values read, levels, and transactions in each other"}],
        "secs": (12, 180),
        "assumptions": [STD_MAP, "functions of computed values are pure and acyclic and neither write values nor create or drop computed values", "the program keeps alive what its functions read", "termination is not proved"],
    },
    "C11": {
        "units": ["transaction_state", "reactive"],
        "technique": DED,
        "note": "The phases and the nesting counter are proved in unit transaction_state; Dependencies::transaction is proved to refresh, only when the outermost transaction ends, every waiting subscriber that still exists, each once, and then to fire the hooks once; report_set to add exactly the subscribers that depend on the changed value. Starting a transaction during the refresh reaches the panic (proved not to return). Trusted as for C10; the hooks themselves are EventEmitter (C24).",
        "theorems": ["lemma_refresh_one"],
        "harness": [{"pkg": "vertigo", "bin": "c11", "bound": "40 000 (thorough: 3 000 000) random programs with nested transactions; fixed networks of up to 300 subscribers, values read, levels, and transactions in each other"}],
        "secs": (12, 180),
        "assumptions": [STD_MAP, "transactions are nested less than 65 535 deep", "functions of computed values are pure and acyclic"],
    },
    "C12": {
        "units": ["graph", "reactive"],
        "technique": DED,
        "note": "The closure that subscribe registers is proved to call the callback exactly when the current value differs from the one of its last call, that of subscribe_all to call it every time; it runs at registration and for each refresh, and refreshes reach exactly the registered subscribers that depend on a changed value (C11); dropping the handle unregisters first. Trusted as for C10, and that == on the values is a lawful equality.",
        "theorems": ["lemma_refresh_one"],
        "harness": [{"pkg": "vertigo", "bin": "c12", "bound": "40 000 (thorough: 3 000 000) random programs with subscribing and unsubscribing; fixed networks of up to 300 subscribers, values read, levels, and transactions in each other"}],
        "secs": (12, 180),
        "assumptions": [STD_MAP, "== on the values is a lawful equality", "functions of computed values are pure and acyclic"],
    },
    "C13": {
        "units": ["connections", "graph", "reactive"],
        "technique": DED,
        "note": "ExternalConnections is proved to call the connection function only while there is no connection and to keep at most one; Graph::set_parent_for_client to keep the invariant that a value with a connection function is connected exactly while something depends on it, through every operation of the reactive graph. Trusted as for C10.",
        "theorems": ["lemma_replace"],
        "harness": [{"pkg": "vertigo", "bin": "c13", "bound": "40 000 (thorough: 3 000 000) random programs over values with connection functions; fixed networks of up to 300 subscribers, values read, levels, and transactions in each other"}],
        "secs": (12, 180),
        "assumptions": [STD_MAP, "functions of computed values are pure and acyclic", "dropping the handle a connection function returned ends the connection"],
    },
    "C24": {
        "units": ["emitter"],
        "technique": DED,
        "note": "add is proved to put the listener last, under a key of its own, and to return the handle that removes exactly that key; trigger to call exactly the listeners registered when it starts, in the order of their keys, each once with a clone of the value, whatever the listeners do to the list meanwhile; a handle runs its function exactly once. Trusted: BTreeMap is iterated in the order of its keys, Verus and Z3, the extraction; a listener is an opaque token whose call is recorded.",
        "theorems": [],
        "harness": [{"pkg": "vertigo", "bin": "c24", "bound": "4 000 (thorough: 200 000) random histories of up to 30 operations, listeners that add, release and trigger included, and lists of up to 1 500 listeners"}],
        "secs": (10, 90),
        "assumptions": [STD_MAP, "fewer than 2^32 - 1 listeners are ever added to one emitter"],
    },
    "C25": {
        "units": ["callbacks"],
        "technique": DED,
        "note": "register, register_with_id, register_once and call are proved against the map from identifiers to callbacks; identifiers come from a counter that only grows; the handle removes exactly its own identifier and runs once; a callback registered once releases its own handle when it is called. Trusted: the atomic counter, derive(Hash, Eq) of CallbackId, vstd's HashMap contracts, Verus and Z3, the extraction; a callback is an opaque token whose call is recorded and which may change the store.",
        "theorems": [],
        "harness": [{"pkg": "vertigo", "bin": "c25", "bound": "4 000 (thorough: 200 000) random histories of up to 34 operations, callbacks that register, release and call included, and stores of up to 2 000 callbacks"}],
        "secs": (10, 90),
        "assumptions": [STD_MAP, "fewer than 2^64 identifiers are drawn"],
    },
    "C28": {
        "units": ["auto_map", "ids"],
        "technique": DED,
        "note": "get is proved to keep the invariant that each key was created at most once and that the map holds a clone of what was created, to return it, and never to change an entry; the creation function may itself read the map (the invariant is its induction hypothesis). That ids given out are all different (nodes', values' and computed values', caches', keyed maps') is proved in unit ids from the static counters' start and fetch_add. Trusted: keys whose clone equals them and whose Hash and Eq agree, vstd's HashMap contracts, Verus and Z3, the extraction.",
        "theorems": [],
        "harness": [{"pkg": "vertigo", "bin": "c28", "bound": "4 000 (thorough: 200 000) random sequences of up to 22 reads with creation functions that read other keys, and maps of up to 3 000 keys"}],
        "secs": (10, 60),
        "assumptions": [STD_MAP, "no creation function reads, directly or not, the key it is creating"],
    },
    "C17": {
        "units": ["mount_path"],
        "technique": DED,
        "note": "replace_prefix, get_base_dir, MountPathConfig::new, http_root, fs_root and translate_to_fs are proved for all strings. Trusted: str::strip_prefix, split and join and format! on sequences of characters, reading and parsing the index file (an unknown result), Verus and Z3, the extraction.",
        "theorems": ["lemma_split"],
        "harness": [{"pkg": "cli", "bin": "c17", "bound": "3 000 (thorough: 120 000) random index files and paths"}],
        "secs": (10, 60),
        "assumptions": ["std's strip_prefix, split and join are as documented"],
    },
    "C18": {
        "units": ["host_match", "client_calls"],
        "technique": DED,
        "note": "Each call of ApiImport is proved to make exactly the message its specification names, the matchers, match_* functions and the host closure of WasmInstance::new to answer a message as the specification's answer says, and theorem_answered and theorem_unsupported relate the two for all arguments, including which of the forms a message can fit. Trusted: wire transport (C01), wasmtime's memory and calls, the channel to the request's task, the callback store (C25) and event emitter (C24), from_json of the headers (C21), the clock, Verus and Z3, the extraction.",
        "theorems": ["theorem_answered", "theorem_unsupported"],
        "harness": [{"pkg": "host", "bin": "c18", "bound": "20 000 (thorough: 600 000) random sequences of up to 8 calls of the real client answered by the real server code, over stand-ins for wasmtime, reqwest and tokio"}],
        "secs": (10, 120),
        "assumptions": ["the bytes of a message decode to the value that was encoded (C01)", "the callback store gives fresh identifiers (C25)", STD_MAP],
    },
    "C21": {
        "units": ["json"],
        "smt": ["casts"],
        "smt_axioms": ["axiom_u", "axiom_i", "axiom_w", "axiom_h"],
        "technique": DED,
        "note": "Both traits carry a contract; every implementation for a supported type (String, &str, bool, (), u64, i64, u32, i32, Vec, Option, HashMap, BTreeMap), get_hashmap, get_property, from_json and to_json are proved against it, and theorem_round_trip is proved for every type built from these by induction over the type. That the casts through f64 lose nothing is discharged by Z3 and cvc5 in the theory of floats (specs/casts.smt2). Trusted: `as` rounds to nearest even and truncates, iterating a map by value yields each entry once, vstd's HashMap and BTreeMap contracts, removal by &str, Verus and Z3, the extraction. The text of error messages is left out.",
        "theorems": ["theorem_round_trip", "theorem_kinds", "theorem_option"],
        "harness": [{"pkg": "cli", "bin": "c21", "bound": "15 000 (thorough: 300 000) random values and JSON texts over 51 types, collections of up to 3 000 entries"}],
        "secs": (10, 60),
        "assumptions": [STD_MAP, "`as` between integers and f64 is IEEE 754 conversion: nearest even to f64, truncation and saturation back"],
    },
    "C19": {
        "units": ["lazy_cache", "ids"],
        "technique": DED,
        "note": "LazyCache (new, clone, get, forget, force_update, update with its asynchronous part inlined), ApiResponse, RequestBuilder (all that builds a request, and call), RequestBody::into, RequestResponse (into, into_data, status), Resource (map, ref_map, ref_clone, equality, the three functions behind `?`) and Instant's add_duration and is_expire are proved against a state shared by all clones (result, mark that an update is under way, requests sent and unanswered, clock). At the two points where an update waits (before it starts to run, and for the answer) the clock may advance and others may drop the result, which theorem_others shows to be all that the functions under contract do while an update is under way; fetch requires that no request is unanswered. theorem_fresh: after an update a read changes nothing until the result expires. That ids given out are all different (nodes', values' and computed values', caches', keyed maps') is proved in unit ids from the static counters' start and fetch_add. Trusted: the fetch layer (C18), the reactive Value (C10), Rc, Duration::from_secs and as_millis, format!; that a spawned future is run to its end (C18, harness); Verus and Z3, the extraction (async/await and the clones' shared cells are rewritten to the explicit state).",
        "theorems": ["theorem_others", "theorem_fresh"],
        "harness": [{"pkg": "vertigo", "bin": "c19", "bound": "5 000 (thorough: 200 000) random histories of up to 40 (some 150) reads, watches, forced updates, drops, clock advances, timer steps and answers on two caches with three clones each; fixed histories for 12 times to live up to 4 000 000 000 s; requests, results shown and watchers compared with an executable description"}],
        "secs": (10, 60),
        "assumptions": ["times and times to live are below 2^64 milliseconds", "the answer of the host can be decoded (otherwise it is logged and the update stays under way)"],
    },
    "C20": {
        "units": ["css"],
        "technique": DED,
        "note": "css_split_rows, css_row_split_to_pair, find_brackets, the four transform_css functions, NextId, get_selector, Css and CssManager are proved, for every text and every sequence of blocks: byte offsets stay at character boundaries, the counter of brackets does not overflow, no panic branch is reached, the rows are exactly those of the recursive description, the rules exactly those of `sheet`, and the manager keeps the invariant that every block with a class is recorded once with its number, numbers increase, and what was inserted is the rules of the recorded blocks. theorem_rows (the pieces joined by semicolons are the text, each with its brackets matched), theorem_pair, theorem_class (decimal notation is injective) and theorem_classes draw the conclusions. An @media row holds one bracket group (several in one row, without a semicolon between them, are outside the domain). Trusted: str::char_indices, slicing at given offsets, trim, split, join, concat, starts_with; brackets and semicolons are not white space; Verus and Z3, the extraction; interior mutability is verified as exclusive access. CssGroup::CssMedia, which nothing builds, is proved as written.",
        "theorems": ["theorem_rows", "theorem_pair", "theorem_class", "theorem_classes"],
        "harness": [{"pkg": "vertigo", "bin": "c20", "bound": "every block of up to 5 of 8 characters; 8 000 (thorough: 200 000) random sets of blocks, static and computed; 1 200 blocks, 40 000 rows, brackets 40 000 deep; the inserted rules and the class attributes compared with an executable description"}],
        "secs": (10, 90),
        "assumptions": [STD_MAP, "fewer than 2^64 names are given out", "a text is shorter than 2^63 bytes"],
    },
    "C23": {
        "units": ["suspense", "element_class"],
        "technique": DED,
        "note": "DomConnection, NodePaths (calculate_path, calculate_all_nodes), DomSuspenseState and DomSuspense are proved against the tree as a map of parents and the history of what each callback was told: after every operation each element with a callback and a parent was last told whether an unfinished node is that parent or inside it (settled), a callback is told at most one value per operation, a different one (told_only_changes); the removal of a node keeps this if it is unfinished, has a callback, or has nothing unfinished inside it (lemma_remove_outside), which is the case once what is inside a removed node is removed too. DriverDom's operations are proved to record exactly their command, to register exactly the nodes named vertigo-suspense, and to insert before running the subscriber of the parent. DomElementClassMerge is proved against the classes of an element and the history of attribute changes, with the callback run on the same state while it is registered. Trusted: derive(Ord, Hash) on DomId, BTreeMap, BTreeSet and HashMap of std (iteration visits every entry once), the class names of styles (C20), interior mutability as exclusive access except where the callback's re-entry is spelled out; that subscribers of a parent leave the page as described.",
        "theorems": ["lemma_remove_outside", "lemma_pending"],
        "harness": [{"pkg": "vertigo", "bin": "c23", "bound": "8 000 (thorough: 200 000) random histories of up to 200 operations on up to 40 nodes, chains of up to 400 nodes, up to 240 unfinished nodes"}],
        "secs": (15, 120),
        "assumptions": [STD_MAP, "callbacks and subscribers do not change what they are being told about while it is being told", "nodes are nested less than 500 deep"],
    },
    "C31": {
        "units": ["dom_command"],
        "smt": ["casts"],
        "smt_axioms": ["axiom_u", "axiom_i", "axiom_w", "axiom_h"],
        "technique": DED,
        "note": "DriverDomCommand::into_string, the object builder, get_property, DomCommand::from_json, the decoder of lists and dom_command_from_js_json are proved against one description of the JSON of each of the 13 commands; theorem_commands composes them: every list of commands sent is accepted, decoded, and equal item by item, and the arm that stops the server is never reached. Trusted: as for C21, and that StaticString::as_str is its text.",
        "theorems": ["theorem_commands"],
        "harness": [{"pkg": "cli", "bin": "c31", "bound": "8 000 (thorough: 200 000) random batches of up to 8 commands"}],
        "secs": (10, 60),
        "assumptions": [STD_MAP, "`as` between integers and f64 is IEEE 754 conversion: nearest even to f64, truncation and saturation back"],
    },
    "C06": {
        "units": ["html"],
        "technique": DED,
        "note": "html_element.rs from Ident to HtmlDocument::convert_to_string (attributes, joining of texts, child modes, self-closing names, the recursion with its termination) is proved to write exactly the pieces described by `lines`, and theorem_read_back proves that an HTML tokenizer written as a specification (tags, quoted attribute values, character references, raw text) reads them back as the document's elements, attributes and texts: exactly in the unindented form, and up to blanks and line breaks at the ends of texts in the indented form. Domain: element and attribute names without markup characters, raw text without `<`, void elements without content. Trusted: what html_escape documents of encode_safe and encode_quoted_attribute, concat, join, repeat, contains, three format! templates, and indentation below usize::MAX.",
        "theorems": ["theorem_read_back"],
        "harness": [{"pkg": "cli", "bin": "c06", "bound": "every character below U+3100, every pair of 36 markup fragments, 34 element names, wide and long documents up to 70 000 items, 12 000 (thorough: 600 000) random trees of up to 120 nodes"}],
        "secs": (10, 60),
        "assumptions": [STD_MAP, "html_escape::encode_safe and encode_quoted_attribute replace exactly the characters their documentation lists", "HTML tokenization is as the specification `tok` describes it for the served subset"],
    },
    "C32": {
        "units": ["json_key", "page"],
        "technique": DED,
        "note": "FetchRequest's and JsJson's equality and hashing, HtmlResponse::new, feed, waiting_request and process_message, the ResponseState constructors and the loop of ServerState::request are proved against an invariant over the whole history of messages: what was sent, who was called back with what, and which request waits for whom. theorem_hash (equal requests feed the same to the hasher, in one order) and theorem_settled (when nobody waits: the requests asked for are those sent, each once, and every asker was called back once, in order, with the response that came for its request) draw the conclusions. The loop's postcondition says which message ended the rendering, that none did before, and, where none did, that nobody waits. Trusted: HashMap with keys whose equality and hash agree (which is what is proved of them), tokio's channel (messages come in the order they were sent, each once), spawn and sleep, reqwest; that a response message is for a request that was sent and carries what send_request returned (C34); the page itself is C33, decoding of commands C31. Whether every response arrives is up to the network: the time limit is then what answers the page.",
        "theorems": ["theorem_hash", "theorem_settled"],
        "harness": [{"pkg": "host", "bin": "c32", "bound": "in 10 s (thorough: 90 s) some 6 000 (50 000) random applications: requests asked for again and again, nested in answers and in later tasks, under random schedules of answers and tasks, plain answers, panics, the time limit; bursts of up to 300 actions"}],
        "secs": (10, 90),
        "assumptions": [STD_MAP, "tokio's unbounded channel keeps the order of messages and loses none"],
    },
    "C33": {
        "units": ["page_build"],
        "technique": DED,
        "note": "HtmlResponse::build_response, HtmlNode::get_element, modify and From, HtmlElement's constructors, attr, add_attr, add_first_child, add_last_child, modify, OrderedMap (also C07), HtmlDocument::new and the ResponseState constructors are proved: the answer is `page` of the tree and the styles (is_page), for every tree: the first body below the root is the one changed, no child of another element is touched, and if the root is no html element or has no body the answer is an error. The tree and styles are those of AllElements::get_response (proved in C05), the text that of HtmlDocument::convert_to_string (proved in C06), both used here by contract. Trusted: VecDeque and HashMap of std, three format! templates.",
        "theorems": [],
        "harness": [{"pkg": "host", "bin": "c33", "bound": "in 10 s (thorough: 60 s) some 8 000 (50 000) random pages with up to 300 elements, styles, environments, missing or second bodies, other roots, compared as text with a page written out by the harness"}],
        "secs": (10, 60),
        "assumptions": [STD_MAP],
    },
    "C34": {
        "units": ["send_request"],
        "technique": DED,
        "note": "Every function of send_request.rs is proved: clear_headers, get_headers_and_body, convert_to_jsvalue and convert_to_jsjson (with termination), get_response_type, send_request_inner, send_request: exactly one request is handed to the http client, with this method, address, headers (each once) and body (asks), and the response is what came, by its content type (told); the unreachable branch is not reached. Of two header names that differ only in case one is sent. Trusted: reqwest (a stand-in states that header adds, body sets and send passes on what was set, and what status, headers and bytes report), serde_json's text and parser and that without arbitrary precision every number has an f64, String's case, trim and split functions, from_utf8. Async functions are verified as the sequence of their steps.",
        "theorems": [],
        "harness": [{"pkg": "host", "bin": "c34", "bound": "in 10 s (thorough: 60 s) some 8 000 (50 000) random requests of all 9 methods with odd headers and bodies up to 210 kB, answered with every kind of content type, broken text and JSON, or not at all; what was sent and what the page was told compared with a description of its own"}],
        "secs": (10, 60),
        "assumptions": ["reqwest sends what its builder was given", "serde_json::to_string writes a text that says the value; from_slice reads the value a text says"],
    },
    "C35": {
        "units": ["dom_nodes", "dom_list", "ids"],
        "technique": DED,
        "note": "DomElement (new, add_child, child, children, child_text, Drop), DomText (new, new_computed, Drop), DomComment (new, new_marker, add_subscription, Drop), DomNode::id_dom, render_value and render_value_option are proved against the nodes there are and the children of each: a new element or text is a fresh node, children are appended in order and the element's own list of children agrees with the page (holds), a bound text is the text of the value there is and each new value replaces it, dropping removes exactly the node. The marker's function runs what was mounted once per place and keeps what it returned until the next; a rendered value, for every function that makes new nodes and changes no others, stands directly before its marker in place of the one before, with everything before and behind it as it was (shown_instead). Fragments and lists: unit dom_list (C14). That ids given out are all different (nodes', values' and computed values', caches', keyed maps') is proved in unit ids from the static counters' start and fetch_add. Trusted: the effect of the commands on the page (C15, C31; checked by the bounded run), subscriptions run with the present and each new value (C08-C12), dropping a node drops what it holds (Rust), numbers of nodes are fresh (the elements html, head and body, which have fixed numbers, are not covered), moving a marker moves what it placed before itself (which is what mounting it again amounts to; bounded run). The EmbedDom conversions are covered by the bounded run only.",
        "theorems": ["lemma_slot", "lemma_slot_gone"],
        "harness": [{"pkg": "vertigo", "bin": "c35", "bound": "4 000 (thorough: 60 000) random histories of up to 20 (45) steps on trees of up to 6 (7) levels over 6 values, elements of 150 children, 50 levels, bursts of 150 values"}],
        "secs": (15, 120),
        "assumptions": ["functions given by the program make new nodes and leave the others alone"],
    },
    "C36": {
        "units": ["dom_events", "decoder", "callbacks"],
        "technique": DED,
        "note": "Every on_* function, add_event_listener, install_callback(1), Callback::subscribe, Callback1::subscribe, get_key_down_event, the decoder of drop events and the whole JsValueListDecoder are proved: the closure that is stored answers every value it can be handed as the statement says (answers: the function of the program ran once, with these data, and this is what it said; or did not run), the command names this element, this event and the number under which the closure is stored, and what the element keeps takes back both (released) and, for a computed handler, follows the value. Unit callbacks proves the store of closures. Trusted: a call of a function of the program is recorded, not executed; subscribe_all runs its function with the present value before it returns and with every new one (C08; bounded run), what an element keeps is dropped with it (Rust), the effect of the two commands (C05, C18). The JavaScript side, which produces the values, is outside; the bounded run stands in for it with well-formed and malformed values through wasm_callback.",
        "theorems": ["lemma_heard", "lemma_dropped"],
        "harness": [{"pkg": "vertigo", "bin": "c36", "bound": "12 fixed histories (every event: 40 values, 100 listeners) and 6 000 (thorough: 120 000) random ones of up to 24 (47) steps: registrations of fixed, shared and computed handlers, events with well-formed and malformed data, changes of the handler, drops"}],
        "secs": (15, 120),
        "assumptions": ["a handler does not drop the element whose event it is handling"],
    },
    "C37": {
        "units": ["client_calls", "router", "callbacks"],
        "technique": DED,
        "note": "interval_set, timeout_set, set_timeout_and_detach, on_hash_change, on_history_change, websocket, WebsocketConnection::new and send are proved with the closures they hand to the store of callbacks: under the number that goes to the host, such a closure does with every value it can be handed what the statement says, and what is given back takes both away (the host's part by its own number, then the closure). lemma_detached: a timer nobody holds runs once and lets go of itself. lemma_let_go: what was let go of runs nothing. Router::new, set, change, get and to_computed are proved over the contract of Value::with_connect (unit reactive, C11). Unit callbacks proves the store of closures. Trusted: a call of a function of the program is recorded, not executed; the messages reach the host as they are (C01); Rust drops what nobody holds; that the host calls a number when it said so is the JavaScript side, outside. The bounded run drives the real library through wasm_callback with a scripted host.",
        "theorems": ["lemma_detached", "lemma_let_go"],
        "harness": [{"pkg": "vertigo", "bin": "c37", "bound": "8 fixed histories (300 messages, 28 intervals and 28 sleeping tasks at once) and 6 000 (thorough: 80 000) random ones of up to 43 (93) steps: intervals, sleeping tasks, websockets, routers, wrong data, letting go from outside and from within, numbers called after they were let go of"}],
        "secs": (15, 120),
        "assumptions": ["the host calls back as it was asked to"],
    },
    "C38": {
        "units": ["tasks", "client_calls"],
        "technique": DED,
        "note": "Task::spawn, run, wake_by_ref, the four functions of the waker table and into_raw_waker, spawn_local, the executor and Driver::spawn, FutureBox::new, publish and poll, Driver::sleep are proved: starting and waking put exactly one run of this task on a timer of 0 ms; a run polls it once unless it is over, and gives it up exactly when it is over then; the waker table keeps the count of those who have the task (what is made from a raw pointer takes a share, ManuallyDrop keeps it). lemma_woken, lemma_found: who waits for a box is woken by what is put there and finds it, once. Unit client_calls proves the timers (set_timeout_and_detach). Trusted: Rc's counting and raw pointers by their documentation, with drops at the end of a block written out; the contract of into_raw_waker is assumed where the table refers to it and proved where it is defined; std's Waker calls the table as documented; a function of the program polls as it likes but is not polled again once it is over. ValueMut and Cell are taken as plain places: a task that is run while it is running is outside.",
        "theorems": ["lemma_woken", "lemma_found", "lemma_detached"],
        "harness": [{"pkg": "vertigo", "bin": "c38", "bound": "11 fixed programs (100 tasks on one box, 400 turns) and 6 000 (thorough: 80 000) random ones of up to 43 (93) steps: tasks of up to 5 steps (sleeping, waiting for one or two boxes, waking themselves once or twice, handing out wakers, starting others, changing values), values put into boxes, wakers used, copied and dropped, timers in any order"}],
        "secs": (15, 120),
        "assumptions": ["the host runs a timer once (C37)", "tasks are run from the host, not from within another task"],
    },
    "C39": {
        "units": ["wire", "memory", "host_memory"],
        "technique": DED,
        "note": "alloc_memory, MemoryBlock (new, from_slice, write, get_ptr, get_ptr_and_size, convert_to_vec, Drop) are proved over a linear permission for each allocation: what is written stays inside it and is what is read, only written bytes are read, and it is given back to the allocator, or to a Vec, in the layout it was allocated in. Arguments::alloc, free, set, get_by_ptr and the exported alloc, free and wasm_callback are proved over the registry of blocks: fresh room, nothing else touched, each value read once, the answer found where the packed result says. On the server DataContext::get_value, get_string_from, alloc and save_value are proved over the guest's memory. Trusted: the allocator, ptr::copy, Vec::from_raw_parts and mem::forget by their documentation; that two live allocations are apart; wasmtime's memory; the encoding (C01). Drop's precondition is kept by every contract, the implicit calls of drop are not themselves obligations.",
        "theorems": ["lemma_pack"],
        "harness": [{"pkg": "host", "bin": "c39", "bound": "5 000 (thorough: 60 000) random sequences of up to 60 hand-overs in both directions with values up to depth 2 and 70 000 bytes, each run three times under an allocator that checks layouts, double frees, writes past the end and what is not given back"}],
        "secs": (10, 120),
        "assumptions": ["pointers are 32 bits wide (WebAssembly)", "the other side writes all of the room it asked for before it passes it on, and passes lengths that lie in memory", "a message is below 2 GiB"],
    },
}
