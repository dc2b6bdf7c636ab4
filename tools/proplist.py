p("C01", "Values survive the Rust-JavaScript wire encoding unchanged",
  "Encoding any JavaScript-side value into its binary snapshot and decoding that snapshot gives back an equal value, for every kind of value nested to any depth (objects of at most 65535 keys, encodings below 4 GiB; floating-point numbers compared bit for bit). The bytes are exactly the documented layout: a type byte, big-endian integers, length-prefixed strings, buffers and lists, and objects as a 16-bit count followed by length-prefixed key and value pairs, which is the layout the JavaScript half of the library reads and writes: what one half sends, the other receives.",
  ["inputs"], "all values of the value type, all nesting depths, all strings and buffers",
  "Three unit tests round-trip three hand-written values; none contains an object outside the JSON kind, an integer, a buffer or an empty collection.",
  [VC + "driver_module/js_value/js_value_struct.rs", VC + "driver_module/js_value/js_json_struct.rs", VC + "driver_module/js_value/memory_block_write.rs", VC + "driver_module/js_value/memory_block_read.rs", VC + "driver_module/src_js/jsvalue.ts", VC + "driver_module/src_js/jsjson.ts", VC + "driver_module/src_js/buffer_cursor.ts", VC + "driver_module/wasm_run.js"],
  [("JsValue::write_to / decode_js_value_inner", VC + "driver_module/js_value/js_value_struct.rs"), ("JsJson::write_to / decode_js_json_inner", VC + "driver_module/js_value/js_json_struct.rs")],
  ["JsValue::to_snapshot", "JsValue::from_block"])

p("C02", "A snapshot's allocated size is exactly the size of its encoding",
  "The size computed for a value before encoding equals the number of bytes the encoding writes, so building a snapshot never overruns the allocated block and never leaves unwritten bytes at its end. This holds for every value whose encoding is below 4 GiB.",
  ["inputs"], "all values of the value type",
  "The size function and the writer are two separate recursions over the value; tests compare them on three values only.",
  [VC + "driver_module/js_value/js_value_struct.rs", VC + "driver_module/js_value/js_json_struct.rs"],
  [("JsValue::get_size / write_to", VC + "driver_module/js_value/js_value_struct.rs"), ("JsJson::get_size / write_to", VC + "driver_module/js_value/js_json_struct.rs")],
  ["JsValue::to_snapshot"])

p("C03", "Typed argument decoding takes items in order and never coerces",
  "Each typed read on an argument list removes exactly the first remaining item and succeeds exactly when that item has the requested kind, giving its value unchanged (a nullable read also accepts null; a list read converts the elements in order and fails if any conversion fails). A read on an exhausted list is an error, and the end-of-list check succeeds exactly when nothing remains.",
  ["inputs", "histories"], "all argument lists and all sequences of typed reads over them",
  "No test exercises the decoder directly; wrong-kind and short lists are never tried.",
  [VC + "driver_module/js_value/js_value_list_decoder.rs", VC + "driver_module/js_value/js_value_struct.rs"],
  [("JsValueListDecoder getters", VC + "driver_module/js_value/js_value_list_decoder.rs"), ("JsValue::convert", VC + "driver_module/js_value/js_value_struct.rs")],
  ["JsValueListDecoder::get_*", "JsValue::convert"])

p("C04", "Server-side child lists keep the order the browser would show",
  "The server-side list of an element's children behaves as an ordered sequence without duplicates under every history of insertions, moves and removals: inserting before a child already in the list puts the node immediately before that child, inserting without a reference puts it last, inserting a node that is already there moves it, and removing deletes just that node. Listing the children yields exactly that order.",
  ["histories"], "all histories of insert-before, move and remove over all node identifiers, references being nodes in the list",
  "The unit tests run a handful of fixed histories of at most a few nodes; the structure is a circular doubly linked list in a hash map whose corner cases (first, last, only child, adjacent move) depend on the history.",
  [CC + "serve/html/element_children.rs"],
  [("ElementChildren::insert_before / remove / childs", CC + "serve/html/element_children.rs")],
  ["ElementChildren::childs"])

p("C05", "Server-rendered pages equal the DOM the browser would build",
  "Replaying any sequence of DOM commands that the library can emit on the server gives the same element tree, attributes, texts, comments and style rules that a browser applying the same commands would hold, and none of those commands is rejected or aborts the server. Commands that detach or delete a node remove it from the rendered page.",
  ["histories", "inputs"], "all sequences of DOM commands in which nodes are created before use and not used after removal",
  "Tests replay short fixed command lists; attribute removal, moves between parents and re-insertion are not in them.",
  [CC + "serve/html/element.rs", CC + "serve/html/element_children.rs", CC + "serve/html/dom_command.rs"],
  [("AllElements::feed", CC + "serve/html/element.rs"), ("dom_command_from_js_json", CC + "serve/html/dom_command.rs")],
  ["AllElements::get_response"])

p("C06", "Text and attribute values cannot change the structure of served HTML",
  "In the HTML text produced by the server, every text node and every attribute value is escaped so that an HTML parser recovers the original element tree, the original attribute values exactly, and the original texts exactly in the unindented form (in the indented form apart from the white space that indentation adds); neighbouring texts come out as one and comments below the root are dropped. No text or attribute value can open or close a tag, an attribute or a comment. The exceptions are the raw contents of script and style elements.",
  ["inputs"], "all texts, attribute values and element trees",
  "Tests render a few fixed trees with benign texts.",
  [CC + "serve/html/html_element.rs"],
  [("HtmlElement::convert_to_string", CC + "serve/html/html_element.rs")], ["HtmlElement::convert_to_string"])

p("C07", "Attribute maps list each key once, with its last value, in setting order",
  "The attribute map used for server-rendered elements behaves as a finite map that lists each of its keys exactly once, with the value last set for it, in the order in which the keys were last set: a key that is set again moves to the end of the listing. Removing a key removes that key and no other, and leaves the order of the rest.",
  ["histories"], "all histories of settings, removals and listings",
  "Only one fixed history is tested.",
  [CC + "serve/html/ordered_map.rs"], [("OrderedMap", CC + "serve/html/ordered_map.rs")], ["OrderedMap::get_iter"])

p("C08", "Dependency edges always match what each node last read",
  "After a node's set of read nodes is replaced, the dependency graph links that node to exactly the new set, and every other link is unchanged except that a node left without any dependant is unlinked from everything it read, recursively. The two directions of the graph always agree, and each node whose dependants changed is reported exactly once with whether it still has any dependant.",
  ["histories", "inputs"], "all acyclic dependency graphs and all histories of edge replacements",
  "Tests drive a few fixed graphs through the public API; the cascade over shared and diamond-shaped graphs depends on the history.",
  [VC + "computed/dependencies/graph_connections.rs", VC + "computed/dependencies/graph_one_to_many.rs"],
  [("GraphConnectionsInner::set_parent_for_client", VC + "computed/dependencies/graph_connections.rs"), ("GraphOneToMany::add / remove", VC + "computed/dependencies/graph_one_to_many.rs")],
  ["GraphConnections::set_parent_for_client", "GraphConnections::get_all_deps"])

p("C09", "Change propagation reaches exactly the transitive dependants",
  "The set of nodes invalidated by a change of a value is exactly the set of nodes reachable from it through one or more dependency links: no dependant is missed and no unrelated node is included. The traversal terminates on every graph.",
  ["inputs"], "all finite dependency graphs, including diamonds and cycles, and all start nodes",
  "Tests use graphs of a few nodes, mostly chains.",
  [VC + "computed/dependencies/graph_connections.rs"],
  [("GraphConnectionsInner::get_all_deps", VC + "computed/dependencies/graph_connections.rs")], ["GraphConnections::get_all_deps"])

p("C10", "Computed values are never stale",
  "Whenever a computed value is read, inside or outside a transaction and from other computed values or subscriptions, the result equals what its function yields on the current contents of the source values. A mapped computed value gives the function of the mapped one's value, one made out of a value that value, one made out of a constant that constant. This holds for graphs whose dependencies change dynamically with the data, and after subscribers come and go. (Functions of computed values neither write values nor create computed values.)",
  ["histories", "programs"], "all acyclic networks of computed values kept alive by the program, and all histories of sets, reads, subscriptions and unsubscriptions",
  "Tests run fixed small networks.",
  [VC + "computed/graph_value.rs", VC + "computed/value.rs", VC + "computed/computed_box.rs", VC + "computed/reactive.rs", VC + "computed/dependencies/mod.rs", VC + "computed/dependencies/graph.rs"],
  [("GraphValue::get_value", VC + "computed/graph_value.rs"), ("Dependencies::report_set", VC + "computed/dependencies/mod.rs"), ("Graph::set_parent_for_client", VC + "computed/dependencies/graph.rs")],
  ["Computed::get"])

p("C11", "A transaction refreshes each affected subscriber once, at its outermost end",
  "Changes made inside nested transactions are gathered, and only when the outermost transaction ends is every affected subscriber refreshed, exactly once, whatever number of values changed or how often; the end-of-transaction hooks run afterwards, once. Starting a transaction while the refresh is running is refused by a panic.",
  ["histories"], "all nestings of transactions and all sequences of changes inside them",
  "Tests use fixed nestings of at most two levels.",
  [VC + "computed/dependencies/mod.rs", VC + "computed/dependencies/transaction_state.rs"],
  [("Dependencies::transaction", VC + "computed/dependencies/mod.rs"), ("TransactionState", VC + "computed/dependencies/transaction_state.rs")],
  ["transaction", "Driver::on_after_transaction"])

p("C12", "Subscribers see every distinct settled value, and nothing after unsubscribing",
  "A subscriber is called at once with the current value and afterwards at the end of each transaction in which its value came to differ from the one it was last called with, and at no other time; the all-updates form is called after every transaction that touched a source it depends on. After its handle is dropped it is never called again.",
  ["histories"], "all histories of sets, transactions, subscriptions and unsubscriptions",
  "Tests check fixed sequences on small graphs.",
  [VC + "computed/computed_box.rs", VC + "computed/graph_value.rs"],
  [("Computed::subscribe / subscribe_all", VC + "computed/computed_box.rs")], ["Computed::subscribe", "Computed::subscribe_all"])

p("C13", "A connected value's source is running exactly while the value is observed",
  "A value created with a connection function has that function called when the first dependant that observes it appears, keeps exactly one connection while it is observed, and releases that connection when the last one goes away; observing it again connects again. It is never connected twice at once.",
  ["histories"], "all histories of subscriptions and unsubscriptions",
  "One fixed test.",
  [VC + "computed/dependencies/external_connections.rs", VC + "computed/dependencies/graph.rs", VC + "computed/value.rs"],
  [("ExternalConnections::set_connection", VC + "computed/dependencies/external_connections.rs")], ["Value::with_connect"])

p("C14", "List rendering shows the items in order and reuses matching nodes",
  "After each update of a rendered list, the nodes shown between the list's siblings are one node per item of the new list, in the order of the list, each rendered from an item with the same key; where an item is rendered as several nodes (a fragment, an embedded value, a nested list), all of them stand, in order, at the place of the item. Nodes are reused only among items of equal key, and as many as possible: for each key the number of reused nodes is the smaller of the old and the new number of items with that key. New nodes are made for the rest, and nodes left over are removed.",
  ["histories", "inputs"], "all sequences of lists, with repeated keys allowed",
  "Tests run a few fixed list changes.",
  [VC + "render/dom_list.rs", VC + "dom/dom_comment.rs"], [("reorder_nodes", VC + "render/dom_list.rs"), ("DomComment::dom_fragment", VC + "dom/dom_comment.rs")], ["DOM commands emitted by render_list"])

p("C15", "Batched DOM commands are reordered without changing their effect",
  "A batch of DOM commands is sent as a permutation of the recorded commands in which the commands that remove nodes come last and every other command keeps its recorded order, as do the removals among themselves. No command is lost, duplicated or altered.",
  ["inputs"], "all batches of commands",
  "No test covers the ordering.",
  [VC + "driver_module/dom_command.rs", VC + "driver_module/dom.rs"], [("sort_commands", VC + "driver_module/dom_command.rs")], ["ApiImport::dom_bulk_update"])

p("C16", "DOM changes are withheld only until the initial requests have settled",
  "DOM commands are buffered until the requests started by the initial rendering have all finished, at which moment everything buffered is sent once; from then on each flush sends what was recorded since the previous one. No command is lost or sent twice and the order of recording is respected.",
  ["histories", "schedules"], "all interleavings of request starts, request ends, recorded commands and flushes",
  "Not covered by tests.",
  [VC + "driver_module/dom.rs"], [("StateInitiation", VC + "driver_module/dom.rs"), ("Commands::flush_dom_changes", VC + "driver_module/dom.rs")], ["dom_bulk_update calls"])

p("C17", "Only paths under the public root map into the served directory",
  "The public root is the directory part of the path of the WebAssembly file named in the build's index, that is everything before its last slash; an index whose file has no slash is refused. A requested path that begins with the public root is translated to the served directory followed by the rest of the path, unchanged, and any other path is refused with an error.",
  ["inputs"], "all public roots, served directories and paths",
  "A few fixed paths.",
  [CC + "serve/mount_path.rs"], [("replace_prefix / get_base_dir / MountPathConfig", CC + "serve/mount_path.rs")], ["MountPathConfig::translate_to_fs", "MountPathConfig::http_root"])

p("C18", "The server answers every call the client library can make to its host",
  "While a page is rendered on the server, every call the client library makes to its host is answered as that call, with the arguments it was made with, and never as another one: a fetch reaches the server with its method, URL, headers, body and callback, and its response reaches the waiting future; a page update, a plain response and a timer of no delay are told with their contents; the location, the environment variable asked for, the clock and the kind of host are answered truly. Cookies, websockets, console output, longer timers and location listeners have no effect on the server, and calls it does not support (hash router, changes of the history, random numbers, time zone) are taken for no other call.",
  ["inputs"], "all calls and all their arguments",
  "Tests sample a few matchers with literal messages; nothing relates the calls the library builds to the forms the server matches.",
  [CC + "serve/wasm/wasm_instance.rs", CC + "serve/wasm/decode_commands.rs", CC + "serve/wasm/js_value_match.rs", VC + "driver_module/api/api_import.rs", VC + "driver_module/api/api_dom_access.rs"], [("WasmInstance::new", CC + "serve/wasm/wasm_instance.rs"), ("match_*", CC + "serve/wasm/decode_commands.rs"), ("ApiImport", VC + "driver_module/api/api_import.rs")], ["host calls"])

p("C19", "A cached resource is fetched once until it expires",
  "A read of a cached resource, through any of its clones, asks for an update only when there is no result (never fetched, or dropped) or it has expired, and no update is under way; forcing an update does so whatever the result is, and is ignored while one is under way. The request is the one that was built: its method, address, headers (the last one set under a name) and body. An update sends at most one request - none if the result was not missing or expired any more and it was not forced - so that at most one request of a cache is unanswered. Until the answer comes readers see what was there before (loading if the update was asked to show that, or if the result is dropped meanwhile); the answer then replaces it: the value, or the error if the request failed, could not be understood or had a status the mapping does not handle. Mapping or copying a result keeps its state and the text of an error, and two results are equal only if states, values and texts are. A result with a time to live expires when the clock is later than the moment it was stored plus that time; one without never does.",
  ["histories", "schedules"], "all interleavings of reads, forced updates, drops, clock advances and answers that the fetch layer can decode; times and times to live below 2^64 milliseconds",
  "Not covered by tests.",
  [VC + "fetch/lazy_cache.rs", VC + "fetch/request_builder.rs", VC + "fetch/resource.rs", VC + "instant.rs"], [("LazyCache::get / update / forget", VC + "fetch/lazy_cache.rs"), ("RequestResponse::into", VC + "fetch/request_builder.rs"), ("Instant::is_expire", VC + "instant.rs")], ["LazyCache::get"])

p("C20", "Scoped CSS is split and named without loss or clash",
  "Splitting a style block into rows, and a row into name and value, keeps all the text and never panics on text whose brackets match and are nested less than 65 536 deep: rows end exactly at the semicolons outside all brackets (behind something with a colon, a dot or a bracket group), and the name ends at the first colon; rows become rules under the block's own class in their order, a bracketed row (pseudo class, @media, animation) becoming a rule of its own. Different style blocks receive different generated class names; the same block, given the same way (as static or as computed text), receives the same one every time and its rules are inserted once.",
  ["inputs", "histories"], "all style texts, including non-ASCII ones, and all sequences of blocks",
  "Fixed ASCII style blocks.",
  [VC + "css/transform_css/splits.rs", VC + "css/transform_css/mod.rs", VC + "css/css_manager.rs", VC + "css/css_structs.rs", VC + "css/next_id.rs", VC + "css/get_selector.rs"], [("css_split_rows", VC + "css/transform_css/splits.rs"), ("transform_css", VC + "css/transform_css/mod.rs"), ("CssManager::get_class_name", VC + "css/css_manager.rs")], ["DriverDomCommand::InsertCss"])

p("C21", "JSON conversion of Rust values round-trips",
  "Converting a value of a supported Rust type to JSON and back gives an equal value: strings, booleans, units, 32-bit integers, 64-bit integers of magnitude at most 2^53, vectors, string-keyed maps, and options of any of these whose JSON is never null. JSON of another kind than the type is written as (string, number, boolean, null, list or object, at any depth) is refused with an error and never coerced.",
  ["inputs"], "all values of the supported types",
  "A few fixed values.",
  [VC + "driver_module/js_value/serialize.rs"], [("JsJsonSerialize / JsJsonDeserialize", VC + "driver_module/js_value/serialize.rs")], ["to_json", "from_json"])

p("C23", "Elements know whether something unfinished is beside or around them",
  "An element given a suspense callback is told, at every moment at rest, whether an unfinished (`vertigo-suspense`) node is its parent or lies inside its parent, wherever nodes have been inserted, moved or removed in the meantime (a removed node together with what is inside it): it is told when that changes, once per change, and never the same thing twice in a row; giving it another callback replaces the first, and releasing a callback silences that element and no other. Its class is its class attribute, the class of its style and the class of the style its callback last gave, in this order, joined by single blanks, and a new class is sent to the host exactly when it differs from the one sent before; every other attribute is sent as it is set or removed. Every operation on the page's nodes records exactly its own command for the host, an insertion before the subscribers of the node's parent run. Pages nested 500 or more levels deep are not covered.",
  ["histories"], "all histories of creations, insertions, moves and removals of nodes, unfinished ones among them, of callbacks given and released, and of classes, styles and attributes set and removed; nesting below 500",
  "No test has an unfinished node: which elements are told what depends on the order of insertions, moves and removals at any depth.",
  [VC + "driver_module/dom_suspense/dom_suspense_mod.rs", VC + "driver_module/dom_suspense/dom_connection.rs", VC + "driver_module/dom_suspense/node_paths.rs", VC + "driver_module/dom.rs", VC + "dom/dom_element_class.rs"],
  [("DomSuspense, NodePaths, DomConnection", VC + "driver_module/dom_suspense/dom_suspense_mod.rs"), ("DriverDom", VC + "driver_module/dom.rs"), ("DomElementClassMerge", VC + "dom/dom_element_class.rs")], ["the argument of the suspense callback", "SetAttr class commands", "DomElement::suspense"])

p("C24", "Event emitters call exactly the live listeners",
  "Triggering an event calls every listener that is registered and not released at the moment of the trigger, once each, in order of registration, with the event's value, and calls no other; listeners added or released by the listeners being called take effect from the next trigger on. Releasing a listener's handle removes that listener and no other.",
  ["histories"], "all histories of registrations, releases and triggers",
  "Only used indirectly by tests.",
  [VC + "driver_module/event_emitter.rs"], [("EventEmitter", VC + "driver_module/event_emitter.rs")], ["EventEmitter::trigger"])

p("C25", "Callbacks are found under their own identifier until released",
  "A registered callback is called exactly for its own identifier, with the argument passed by the host, until its handle is released, after which calls to that identifier reach nothing. Identifiers are never reused for another callback.",
  ["histories"], "all histories of registrations, calls and releases",
  "Only used indirectly by tests.",
  [VC + "driver_module/api/callbacks.rs"], [("CallbackStore", VC + "driver_module/api/callbacks.rs")], ["CallbackStore::call"])

p("C28", "A keyed lazy map creates each entry once",
  "Reading a key of a lazily filled map returns the value its creation function gave for that key the first time, and the function is called at most once per key that has been read without recursion.",
  ["histories"], "all histories of reads over all keys",
  "Fixed doc test.",
  [VC + "computed/auto_map.rs", VC + "computed/struct_mut/hash_map_mut.rs"], [("AutoMap::get", VC + "computed/auto_map.rs")], ["AutoMap::get"])

p("C31", "DOM commands survive the trip to the server as JSON",
  "Every DOM command that the library can emit is turned into JSON that the server decodes to the same command with the same node identifiers, names and values, and no command is undecodable.",
  ["inputs"], "all commands with all identifiers below 2^53 and all strings",
  "Not covered by tests.",
  [VC + "driver_module/dom_command.rs", CC + "serve/html/dom_command.rs"], [("DriverDomCommand::into_string", VC + "driver_module/dom_command.rs"), ("dom_command_from_js_json", CC + "serve/html/dom_command.rs")], ["dom_bulk_update"])

p("C32", "Rendering sends each distinct request once, answers every asker, and ends",
  "While the server renders a page, equal requests (same method, address, headers and body, whatever the order of headers or of names in a JSON body) are sent once: however many times, and whenever, they are asked for, each asker is called back exactly once, with the response of its own request, askers of one request in the order they asked; timers that are due at once fire each exactly once. The page is answered with what a panic or a plain answer dictates if one came first, with the page as it is when the time limit of 10 seconds ends, and otherwise only when no message and no unanswered request is left.",
  ["inputs", "schedules", "histories"], "all requests, all schedules of the guest's messages and of the responses",
  "Not covered by tests, which never run the request loop.",
  [CC + "serve/server_state.rs", CC + "serve/html/html_response.rs", CC + "serve/wasm/message.rs", VC + "driver_module/js_value/js_json_struct.rs"],
  [("ServerState::request", CC + "serve/server_state.rs"), ("HtmlResponse::process_message", CC + "serve/html/html_response.rs"), ("FetchRequest (eq and hash)", CC + "serve/wasm/message.rs")], ["HTTP answer of the server", "requests sent by the server", "callbacks into the guest"])

p("C33", "A served page is the document with styles, environment and script in place",
  "The page sent to the browser is the document the application built, unchanged but for this: the html element carries one data-env attribute for every environment variable with its value, the first body element starts with all style rules in the order they were inserted, before the application's own content, and ends with exactly one script element, which names the configured program and loader. An application without html root or without body is answered with an error of status 500 and no page.",
  ["inputs"], "all documents, styles, environments and mount paths",
  "Not covered by tests, which never assemble a page.",
  [CC + "serve/html/html_response.rs", CC + "serve/html/html_element.rs", CC + "serve/response_state.rs"],
  [("HtmlResponse::build_response", CC + "serve/html/html_response.rs"), ("HtmlNode::modify", CC + "serve/html/html_element.rs")], ["HTTP answer of the server"])

p("C34", "Requests go out as the page asked, and the page is told what came back",
  "A request which the page makes while it is rendered on the server goes out with its method, its address, every one of its headers (names in lower case), and its body: text and bytes as they are, JSON as text saying the same value, with a content type added for text and JSON only where the page gave none. The page is told the status and the body that came: as JSON or text if the content type says so (whatever its case or parameters), as bytes otherwise; if nothing comes, or a body that is not what its type says, it is told of a failure. No method, body or answer stops the server.",
  ["inputs"], "all methods, addresses, headers, bodies and answers",
  "Not covered by tests, which make no requests from the server.",
  [CC + "serve/html/send_request.rs"],
  [("send_request", CC + "serve/html/send_request.rs"), ("get_response_type", CC + "serve/html/send_request.rs"), ("convert_to_jsjson / convert_to_jsvalue", CC + "serve/html/send_request.rs")], ["requests sent by the server", "RequestResponse in the page"])

p("C35", "Components show what they are bound to, and leave nothing behind",
  "An element has the name it was given, and the children given to it stand in it in the order in which they were added, wherever the calls that add them come. A bound text shows the text for the present value. A rendered value shows, directly before its marker, the node made from its present value, or nothing if there is none, and nothing of any earlier value; a fragment shows all its nodes in order. This holds at every moment at rest, for any nesting of elements, texts, rendered values, fragments and lists, when several values change at once, and when a part moves within a list. Nodes that do not depend on what changed stay the same nodes. When a component is dropped or replaced, its own node and those of all it holds are removed, each exactly once, and nothing it was bound to changes the page any more.",
  ["histories", "inputs"], "all trees of components and all sequences of changes of the values they are bound to, of additions and of drops",
  "Tests render a few fixed components and change single values.",
  [VC + "dom/dom_element.rs", VC + "dom/dom_text.rs", VC + "dom/dom_comment.rs", VC + "render/dom_value.rs"],
  [("DomElement", VC + "dom/dom_element.rs"), ("DomText", VC + "dom/dom_text.rs"), ("DomComment::new_marker", VC + "dom/dom_comment.rs"), ("render_value, render_value_option", VC + "render/dom_value.rs")], ["DOM commands", "DomElement::child", "Value::render_value"])

p("C36", "Events run their handler with what happened, and its answer goes back",
  "For each handler registered on an element (click, mouse down/up/enter/leave, input, change, blur, key down on the element or the document, file drop, load) the browser is told to listen for exactly that event on that element, under a number no other handler has. When the event comes, that handler runs exactly once, and no other does: text handlers get the text, key handlers the key, the code and the four modifier keys, each as the browser gave it, drop handlers every file with its name and bytes in order. What is not such an event (missing, additional or wrong parts) runs nothing and gets an answer that leaves the browser's own behaviour alone. A handler that answers whether to prevent the browser's own behaviour gets exactly this answer back; the others give none. A handler that is a computed value is always the one for the present value. When the element is dropped, every one of its listeners is taken back, and their numbers run nothing any more.",
  ["histories", "inputs"], "all data handed over with an event, all answers, all histories of registrations, changes of the handler and drops",
  "Tests deliver no events with odd data, and look at no answers.",
  [VC + "dom/dom_element.rs", VC + "dom/callback.rs", VC + "dom/types.rs", VC + "driver_module/js_value/js_value_list_decoder.rs"],
  [("DomElement::on_*, add_event_listener, install_callback", VC + "dom/dom_element.rs"), ("get_key_down_event", VC + "dom/dom_element.rs"), ("Callback, Callback1", VC + "dom/callback.rs")], ["DomElement::on_click", "DomElement::on_key_down", "DomElement::on_dropfile", "Callback"])

p("C37", "What the host reports later reaches who asked for it, until they let go",
  "An interval, a timeout, a websocket and whoever follows the location each give the host a number that no other has, with the duration, address or place asked for. While it is held, whenever the host calls that number the function of the program runs exactly once, with what was reported: websocket functions get the connection when it opens (on which messages go to that very socket), every message with its text, and the close; anything else runs nothing. A router shows the value made from its own location, at first and after each change that is reported while it is observed, and asks its own location to go where it is told. All changes a function makes are seen at once. When it is let go of, from outside or from within its own function, the host is told to stop exactly that, and the number runs nothing any more. A timer nobody holds runs once and lets go of itself.",
  ["histories", "inputs"], "all data handed over, all histories of asking, reporting and letting go",
  "Tests use no timers, websockets or location changes.",
  [VC + "driver_module/api/api_import.rs", VC + "driver_module/api/callbacks.rs", VC + "websocket.rs", VC + "router.rs"],
  [("ApiImport::interval_set, timeout_set, set_timeout_and_detach, on_hash_change, on_history_change, websocket", VC + "driver_module/api/api_import.rs"), ("Router", VC + "router.rs"), ("WebsocketConnection", VC + "websocket.rs")], ["Driver::set_interval", "Driver::sleep", "Driver::websocket", "Router"])

p("C38", "Tasks run to their end: nobody who waits is forgotten, nothing runs twice",
  "A task given to spawn is not run at once but as soon as the host has time, and then once for every time it is woken, until it is over; then it is dropped, and waking it again does nothing. Wakers can be copied, kept, used and dropped in any order: each keeps what it needs and no more. Whoever waits for a FutureBox is woken when a value is put there and gets the last value put, once; a value put before anyone asks is kept; of several who wait, the one who asked last is woken. sleep is over after a timer of the time that was asked for, not before.",
  ["schedules", "histories"], "all programs of tasks, all orders of timers, values and wake-ups",
  "Tests start no tasks.",
  [VC + "driver_module/utils/futures_spawn.rs", VC + "future_box.rs", VC + "driver_module/driver.rs"],
  [("Task", VC + "driver_module/utils/futures_spawn.rs"), ("FutureBox, FutureBoxSend", VC + "future_box.rs"), ("Driver::spawn, sleep", VC + "driver_module/driver.rs")], ["Driver::spawn", "Driver::sleep", "FutureBox"])
p("C39", "Memory handed over is read whole and once, and is given back as it was taken",
  "Room that the JavaScript side or the server asks for (alloc) is its own until it is passed on or given back (free): it has the size asked for and overlaps nothing handed over before. A value passed under a pointer is read whole, exactly once; a pointer of 0, or one that was not handed over, stands for no value. What a called function answers lies where the result says (pointer, size), stays until it is given back, and no answer is 0. No write goes past the end of a block, and memory is given back exactly once, in the form in which it was allocated; nothing is kept for ever. On the server a stored value takes the room asked for it and nothing else.",
  ["inputs", "histories"], "all sequences of hand-overs of all values, in both directions",
  "Tests never cross the boundary.",
  [VC + "driver_module/js_value/memory_block.rs", VC + "driver_module/api/arguments.rs", VC + "lib.rs", "crates/vertigo-cli/src/serve/wasm/data_context.rs"],
  [("MemoryBlock", VC + "driver_module/js_value/memory_block.rs"), ("Arguments", VC + "driver_module/api/arguments.rs"), ("alloc, free, wasm_callback", VC + "lib.rs"), ("DataContext", "crates/vertigo-cli/src/serve/wasm/data_context.rs")], ["alloc", "free", "wasm_callback"])
p("C40", "The page's JavaScript does what it is told: DOM commands, timers, events, routes",
  "The JavaScript half applies every DOM command, in the order given, to the node named by its number and to no other; an event, timer, message, route change or answer to a request calls the callback it was registered with, with what happened, as long as it is registered and not after it is removed; reading, setting and calling along a path of names reaches exactly what the path names.",
  ["inputs", "schedules", "histories"], "all batches of commands, all sequences of events, timers and messages",
  "No test runs the JavaScript half.",
  [VC + "driver_module/src_js/api_browser/dom/dom.ts", VC + "driver_module/src_js/js_node.ts", VC + "driver_module/wasm_run.js"],
  [("DriverDom", VC + "driver_module/src_js/api_browser/dom/dom.ts"), ("JsNode", VC + "driver_module/src_js/js_node.ts")], ["dom_access"],
  na="The code is TypeScript, and what runs is a minified bundle made of it (wasm_run.js) that cannot be made again here (no rollup). No deductive verifier for either language is installed; a translation into Verus written for this would be a model of a dynamically typed language, not the code. Its wire encoding is run, bounded, beside the proofs of C01; what the Rust half sends and expects is under contract in C15, C18, C36 and C37.")
p("C41", "Macros build what their input describes",
  "dom!, css!, bind!, the component attribute and the JsJson derive expand to code that builds exactly the elements, attributes, children, handlers, rules, captured values and fields written in their input, in that order, and refuse input they do not understand.",
  ["inputs"], "all inputs of the macros",
  "Tests expand a handful of inputs.",
  ["crates/vertigo-macro/src/html_parser.rs", "crates/vertigo-macro/src/css_parser.rs", "crates/vertigo-macro/src/bind.rs", "crates/vertigo-macro/src/jsjson/enums.rs"],
  [("dom_inner", "crates/vertigo-macro/src/html_parser.rs"), ("generate_css_string", "crates/vertigo-macro/src/css_parser.rs")], ["dom!", "css!", "bind!"],
  na="The functions take and give token streams (proc_macro, syn, quote, rstml), which exist only inside the compiler, and their meaning is the Rust program they expand to: a contract would have to give semantics to Rust source text, which Verus cannot express. What the expansions call is under contract (C14, C20, C21, C35), and the JsJson derive is run, bounded, in C21.")
