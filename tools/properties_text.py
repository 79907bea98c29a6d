prop('C01', 'Passage references parse and print without loss',
     'Parsing the text of a passage reference (one passage or a start-end range, any depth, optional word references such as @word[2], whose word may hold dots, spaces, apostrophes or any letter) gives a reference whose text, start, end, range flag, per-level components, word and word counter are exactly those of the text. Parsing its own text, building it from its two bounds, copying, deep-copying or pickling it gives an equal reference with the same text. Two references are equal exactly when their texts are.',
     ['inputs'], 'every reference text made of 1-4 level components per bound, with or without word reference and counter, single or range',
     'tests try a dozen fixed references; they cannot rule out a component length, digit, or range/word-reference combination that is split, truncated or compared wrongly.',
     [REF, BASE], 'CtsReference.__new__ / CtsSinglePassageId / CtsWordReference split the text on "-", "@", "." and "[n]"')
prop('C02', 'Parent, depth and highest level of a passage reference',
     'The parent of a single passage is the reference with its last level removed (keeping its word reference), and a top-level passage has none. The parent of a range removes the last level of both bounds (a range with a top-level bound has none) and is a single passage exactly when both shortened bounds coincide and carry no word reference. depth is the number of levels of the shallower bound and highest is that bound (the start when both are equally deep).',
     ['inputs'], 'every single or range reference of depth 1-4 per bound, components equal or different, with or without word references',
     'the outcome depends on which components of the two bounds coincide; tests cover a few fixed pairs.',
     [REF], 'CtsReference.parent, .highest, .depth')
prop('C03', 'CTS URNs parse into their components and print back',
     'Parsing a CTS URN of any length (namespace, textgroup, work, version, passage) yields exactly its components, absent ones being None, and printing it gives the text back without any fragment after "#". upTo(level) is the prefix of the URN up to that level (PASSAGE_START and PASSAGE_END giving the passage bound) and raises KeyError for an absent level. Length counts the non-passage components, equality is equality of text, and greater/less compare lengths.',
     ['inputs'], 'every URN with 0-3 work components and an optional single or range passage, arbitrary component text',
     'tests use a handful of Perseus URNs; any component text, absence pattern or level is possible input.',
     [REF], 'URN.__parse__, __str__, upTo, __len__, __eq__, __gt__, __lt__')
prop('C04', 'Editing a URN keeps every view of it consistent',
     'After any sequence of assignments to the components of a URN (urn namespace, namespace, textgroup, work, version, reference), its text, its prefixes, its length and its comparisons are those of a URN parsed from the new components. Reading the URN between assignments never changes what it later reports.',
     ['inputs', 'histories'], 'every sequence of up to 3 component assignments interleaved with reads, starting from a parsed URN',
     'the text is cached: a stale cache only shows for particular interleavings of reads and writes that tests do not enumerate.',
     [REF], 'URN property setters reset the cached text; __str__ rebuilds it')
prop('C05', 'Reference sets behave as ordered collections of references',
     'A reference set keeps the given references in order, with their citation and level, also when it holds a single reference or none. Membership accepts a reference or its text, index a reference (and its text for CTS sets), and they agree with the position of that reference in the set; something not in it is not found (index raises ValueError). A DTS reference is the same as another when both text and type agree.',
     ['inputs'], 'every CTS or DTS set of 0-4 references, and every probe equal to or different from its members',
     'tests probe a few members of fixed sets; single-member and prefix-sharing sets are different code paths.',
     [BASE, REF, DTS1], 'BaseReferenceSet.__new__, CtsReferenceSet.__contains__/index, DtsReferenceSet.__contains__')
prop('C06', 'Citation scope and xpath are a faithful split of the refsDecl',
     'For a citation given a replacement pattern #xpath(...$1...$n), scope + xpath with the place-holders numbered back in order is that pattern, xpath being the last step and scope what precedes it. Setting scope or xpath, or building a citation from them, rebuilds the pattern so that reading it back gives the same scope and xpath.',
     ['inputs', 'histories'], 'every pattern of 1-3 place-holder steps with ordinary TEI step names, type/subtype predicates and n or xml:id attributes; every order of setting scope and xpath',
     'tests use the refsDecl of a few sample texts; step names and attribute values vary in real corpora.',
     [REF], 'Citation.refsDecl/_parseXpathScope/_fromScopeXpathToRefsDecl')
prop('C07', 'Filling a citation gives an XPath that selects exactly that passage',
     'Filling a citation with a reference, a list of components (or, for its xpath alone, a text) substitutes the n-th place-holder by the n-th component and leaves the rest of the pattern unchanged; filling with None or with a list ending in None leaves the test on the attribute name only for those levels. Whatever the component text (single quotes aside), the resulting XPath selects the nodes carrying those identifiers and no others.',
     ['inputs'], 'every component text without single quotes, every depth 1-3, every way of passing the passage',
     'tests fill with digits and letters; characters special to the substitution itself (backslash, $, digits) appear in corpora but not in tests.',
     [REF], 'Citation.fill, _ref_replacer, REFERENCE_REPLACER')
prop('C08', 'The citation tree reports its own shape correctly',
     'For any citation hierarchy, iterating yields every citation once in document order from the one asked, and depth counts the levels. In a CTS chain len is the number of levels and item access by level returns the citation of that level, KeyError where there is none; in a set len is the number of citations and item access gives those of that level (none beyond the depth, CitationDepthError for a negative level before the first). is_root, is_set, is_empty and root describe the position in the tree, and matching a reference against a chain returns the citation of its depth. All of this is of the tree as it is when asked, whatever was asked of it before it grew.',
     ['inputs', 'histories'], 'every chain of 1-4 CTS citations and every DTS citation tree of up to 5 nodes, in every order of construction, asked before and after growing',
     'tests build two fixed trees; branching shapes, construction orders and depths vary.',
     [BASE, REF, DTS1], 'BaseCitationSet/BaseCitation __iter__, depth, __getitem__, match, root, children')
prop('C09', 'Citations survive export and re-ingestion',
     'A chain of citations exported to CTS inventory XML, to a TEI refsDecl or to DTS JSON and read back gives a chain of the same length with the same names, and, where the format carries them, the same scopes, xpaths and replacement patterns, whatever the names. The exported XML is well formed.',
     ['inputs'], 'chains of 1-3 citations with arbitrary names and patterns with arbitrary attribute values',
     'tests export one fixed hierarchy with plain names; markup characters and differing depths are inputs.',
     [REF, BASE, DTS1, XML], 'Citation.__export__/ingest, BaseCitationSet.__export__, DtsCitationSet.ingest, make_xml_node')
prop('C10', 'Listing references of a local text is complete, exact and ordered',
     'For a local TEI text whose passages are identified by its citation scheme, the references listed at a level are exactly the passages that exist at that level, in document order; restricted to a passage or a range they are exactly its descendants at that level (for a range, from the first to the last bound), none for a passage which contains none. Asking for a level deeper than the scheme raises CitationDepthError, for an unknown passage KeyError, and asking never changes later answers. In debug mode the answer is the same, and duplicate or empty identifiers are warned about exactly when there are some. This holds whether the scheme names every element on the way from the root or leaves some out (//), and whichever attribute and further tests identify the elements of a level.',
     ['inputs', 'histories'], 'every text of the bounded shapes (2-3 levels, up to 3 children per node, arbitrary identifiers), every level, every passage or range restriction',
     'tests list references of a few sample texts with regular numbering; identifiers that are prefixes of one another, unequal branch sizes and restrictions at every level are not exercised.',
     [LOCAL, REF], 'CapitainsCtsText.getReffs/getValidReff walking the citation scheme with XPath')
prop('C11', 'A retrieved passage contains exactly the text asked for',
     'Retrieving a passage of a local text by reference (a single passage or any range in document order, in a scheme naming every element from the root or leaving some out, whose bounds may have different depths or contain one another; contextual mode, or simple mode for single passages) gives an XML fragment containing exactly the passages of that reference, in document order with their markup and attributes, and nothing of their siblings; the ancestors are kept with their attributes in contextual mode. The source text is left unmodified, repeating the request gives the same answer, and an unknown passage or one deeper than the scheme raises an error rather than returning something else.',
     ['inputs', 'histories'], 'every text of the bounded shapes with arbitrary identifiers and text content (including equal texts), every single passage and every range in document order',
     'tests retrieve regular poems where neighbouring lines differ; which siblings are cut depends on positions, depths and even on text content.',
     [LOCAL, XML], 'getTextualNode, passageLoop, copyNode, performXpath, normalizeXpath')
prop('C12', 'Neighbour references of a passage are its true neighbours',
     'The previous and next references of a single passage are the passages just before and after it at the same level of the whole text, None at either end, also across parents. For a range they are the spans of the same number of passages just before and after it, clipped at the ends of the text; a window of one passage x may be given as x or x-x. A word named in a bound (1.2@word[1]) changes nothing to them. Bounds of different levels raise InvalidSiblingRequest.',
     ['inputs'], 'every text of the bounded shapes, every passage and every range in contextual mode, every passage in simple mode',
     'tests check a few positions of one text; clipping depends on range length against position.',
     [LOCAL], 'siblingsId of CapitainsCtsPassage and _SimplePassage')
prop('C13', 'Walking a local text passage by passage never derails',
     'Following next (or prev) from a passage visits exactly the passages of that level in order and ends with None, and prev of next is the passage itself. first, last and childIds of a passage or text are its children in order (None and an empty list when it has none), parent undoes descending, and every object reached reports the reference, URN, citation and depth of that passage.',
     ['inputs', 'histories'], 'every text of the bounded shapes, every walk of up to 3 steps of next/prev/first/last/parent from every passage',
     'tests take one step from a few passages; state carried from passage to passage only shows after several steps.',
     [LOCAL, PTEXT, PCTS], 'CapitainsCtsPassage.next/prev, InteractiveTextualNode first/last/parent/children')
prop('C14', 'Exports of a text preserve its content',
     'The plain text export of a passage is the text of its nodes in document order without the excluded elements, with runs of spaces collapsed and nothing else changed. The nested dictionary export holds exactly one entry per reference, nested by level in order, whose value is the plain text of that passage, and XML exports hold the same tree. What an export gives does not depend on the exports made before it.',
     ['inputs', 'histories'], 'every text of the bounded shapes with arbitrary text content and inline markup, with and without exclusions',
     'tests export fixed passages; text content, mixed markup and the exclusion set are inputs.',
     [TEI, GEN, XML], 'TeiResource.__export__, normalize, nested_set/nested_get')
prop('C15', 'A collection tree finds and lists its members exactly',
     'In any tree of collections, each attached once, looking up a member by identifier from the root returns that member and anything absent raises; descendants are all members below each listed once, readableDescendants the readable ones, and parents the chain to the root (for a DTS collection, which has a set of parents, what it was read below). Removing a member makes it and what is only below it unreachable, nothing else, and leaves the metadata of the others, including its former parent, unchanged (links naming what is removed excepted: they go with it).',
     ['inputs', 'histories'], 'every tree of up to 5 collections (generic, CTS, or DTS read from nested documents) with arbitrary identifiers; every lookup and removal',
     'tests use one fixed inventory; identifiers related by prefix and deletion effects depend on shape.',
     [PMETA, INV], 'Collection.__getitem__/__contains__/__delitem__/descendants/parents, CTS overrides')
prop('C16', 'Merging inventories is a union that keeps every member',
     'Merging two textgroups, or two works, of the same URN gives one holding the works and texts of both under their URNs, each with its own metadata, citation and parent, in any order of merging; merging one into itself or twice changes nothing; a text present in both is the one added last. What is merged in is itself left as it was. Merging items of different URNs raises InvalidURN and leaves both unchanged.',
     ['inputs', 'histories'], 'every pair or triple of bounded inventories (shared and distinct works and texts), in either order',
     'tests merge one fixed pair; overlap pattern and order are the input.',
     [INV, RUT], 'CtsTextgroupMetadata.update, CtsWorkMetadata.update')
prop('C17', 'Metadata returns exactly what was stored',
     'After any sequence of additions, replacements and removals on the metadata of an object, get(key, lang) yields exactly the values currently stored under that key and language, get_single one of them (falling back to another language, None only when the key holds nothing), and other keys, languages and objects are unaffected. Values keep their text, language and type. Metadata.getOr(subject, predicate) is the metadata linked so, new metadata when there is none.',
     ['inputs', 'histories'], 'every sequence of up to 4 add/set/remove operations over a small set of keys and languages with arbitrary values',
     'tests check one or two values; interactions between keys, languages and objects sharing one graph are histories.',
     [META], 'Metadata.add/set/get/get_single/remove/unlink over the shared graph')
prop('C18', 'Metadata exports carry every value unchanged',
     'Exporting metadata to JSON, RDF, JSON-LD (the triples handed to the serialiser) or CTS XML yields every stored value, once, under its own key and language with its text unchanged, restricted to the requested keys when such a restriction is given. Exporting does not change the metadata, the restriction passed in, nor later exports.',
     ['inputs', 'histories'], 'every bounded set of keys, languages and arbitrary values; every repeated export',
     'tests compare one fixed export; value text and repetition are inputs.',
     [META, GRAPH], 'Metadata.__export__')
prop('C19', 'A CTS inventory survives export and parsing',
     'An inventory of textgroups, works, editions, translations and commentaries exported to CTS XML and parsed again has the same URNs, nesting, kinds, languages, labels, titles, descriptions, citations and commented-on/translated links. The exported document is well formed whatever the labels, titles and descriptions. Each document read, be it text or a parsed element, gives the languages it declares (a text without one has that of its work) and the structured metadata it holds, whatever was read before.',
     ['inputs'], 'every bounded inventory with arbitrary labels and titles in 1-2 languages and any subset of optional parts',
     'tests round-trip fixed files; special characters and absent optional parts are inputs.',
     [INV, CCTS, XML], '__export__ of the inventory classes and XmlCts*.parse')
prop('C20', 'The dispatcher files each item under one matching collection',
     'Dispatching an item puts it in the sub-inventory of the matching method registered last (the default collection, registered first, comes last) and in no other, methods being given the arguments of the call (so that one identifier dispatched with different arguments may go to different collections), and an item no method accepts raises UndispatchedTextError. After dispatching any sequence of items, each sub-inventory holds exactly the items sent to it.',
     ['inputs', 'histories'], 'every bounded registration of prefix-matching methods and every sequence of up to 3 items',
     'tests use one fixed configuration; overlapping criteria and order are inputs.',
     [RUT], 'CollectionDispatcher.collection/inventory/dispatch')
prop('C21', 'DTS collections round-trip through JSON-LD',
     'Parsing a DTS collection response gives a collection with the identifier, title, type, size, description, members, citation tree and extension metadata of the document, and exporting it gives a document with the same values, which parses to the same collection; members carry their identifier, title, type, size and description. A CTS collection exported to DTS gives its identifier, title, size, members, citation, description and links. Members are readable exactly when typed Resource.',
     ['inputs'], 'every bounded DTS collection document (0-3 members, optional parts present or absent, arbitrary titles and identifiers)',
     'tests parse two sample responses; optional parts and values vary by server.',
     [DBASE, PMETA, JLD], 'DtsCollection.parse, Collection.__export__, literal_to_dict')
prop('C22', 'Export dispatches to the declaring class or refuses',
     'export(mimetype) runs the exporter of the most derived class that declares that mimetype, export() uses the default mimetype of the object, and any mimetype no class of the object declares raises NotImplementedError. export_capacities lists exactly the mimetypes that work.',
     ['inputs'], 'every exportable class of the package and user-defined hierarchies of up to 3 levels, every mimetype string',
     'tests call a few supported pairs; unsupported pairs and overriding are the quantifier.',
     [EXP], 'Exportable.export, export_capacities')
prop('C23', 'The local resolver finds exactly the right texts',
     'Given a set of loaded texts, metadata lookup and filters (identifier, textgroup, work, edition) return exactly the texts whose URN has those components, never one that merely shares a prefix; lookup of a text by work URN returns an edition of that work, and an error when it has none. An unknown identifier raises an error, and getTextualNode / getReffs / getSiblings by identifier act on that text.',
     ['inputs'], 'every bounded inventory of 2-4 texts with arbitrary component names (prefix-related included) and every query',
     'tests query one corpus in which names are not prefixes of one another.',
     [RLOC], 'CtsCapitainsLocalResolver.__getText__, __getTextMetadata__, getMetadata')
prop('C24', 'Pagination returns consistent windows',
     'For any page, size and total, the window lies inside the list and is never empty unless the list is, consecutive pages partition the list without gap or overlap, and the page number reported and the number of items are those of the window. Pages outside the existing ones are clipped to the first or last page, an absent page is the first and an absent or illegal size is the default size. Without pagination the whole list is returned.',
     ['inputs'], 'all page numbers 0-30, sizes 1-20 and totals 0-60 as symbolic integers',
     'tests use one total; clipping at exact multiples is an arithmetic boundary over all combinations.',
     [RLOC], 'CtsCapitainsLocalResolver.pagination')
prop('C25', 'Loading a corpus directory registers every well-formed text once',
     'Loading directories following the CapiTainS layout yields an inventory holding exactly the textgroups, works and texts described by the metadata files whose text file exists and declares a citation scheme, each under its URN with its path and citation. Texts that are missing or lack a scheme are skipped (or raise when configured so) without losing the others, and a text described in two directories is registered from the one where it can be read.',
     ['inputs', 'configurations'], 'bounded directory layouts (1-2 groups, works and texts), any subset of text files missing or lacking a refsDecl',
     'tests load one healthy corpus plus a few defects; combinations of defects are configurations.',
     [RLOC], 'CtsCapitainsLocalResolver.parse, _parse_textgroup, _parse_work, _parse_text')
prop('C26', 'The CTS retriever sends exactly the requested query',
     'Each CTS operation issues one GET to the endpoint whose parameters are the request name plus exactly the arguments given (absent ones omitted), with the passage appended to the URN where one is given. The body is returned as received and an HTTP error raises.',
     ['inputs'], 'every operation, every subset of optional arguments, arbitrary URN and reference text',
     'tests check fixed argument sets per operation.',
     [RCTS, RAPI], 'HttpCtsRetriever.call and operations; HttpCtsResolver')
prop('C27', 'The DTS retriever sends exactly the requested query',
     'Each DTS operation resolves the route advertised by the endpoint entry document and issues one GET with exactly the given parameters (absent ones omitted; a range as start and end, a single reference as ref). An HTTP error raises.',
     ['inputs'], 'every operation, every subset of optional parameters, absolute and relative routes',
     'tests check fixed argument sets.',
     [RDTS, HTTP], 'HttpDtsRetriever.call/get_collection/get_navigation/get_document')
prop('C28', 'DTS reference listings are complete, typed and ordered',
     'Listing the references of a DTS resource follows the pages to the end and returns every member exactly once, in order, as single references or ranges with the type of their citation, whatever the page split, one-member answers included. Level and citation are those of the response, every page is asked with the same arguments (level, reference or range, group size, exclusions), an answer that is no listing raises instead of giving a partial list, and references are equal exactly when start, end and type are.',
     ['inputs', 'histories'], 'every bounded navigation response (0-4 members over 1-3 pages, single and range members, optional fields present or absent)',
     'tests replay one recorded listing.',
     [DAPI, DTS1, HTTP], 'HttpDtsResolver.getReffs, DtsReferenceSet')
prop('C29', 'Lazily loaded DTS collections list every child or parent once',
     'Walking the children (or parents) of a remote DTS collection downloads pages until the last and yields every member once, whichever of children, parents, size or lookup is asked first. Asking again downloads nothing more and yields the same members.',
     ['inputs', 'histories'], 'every split of 0-4 members in 1-3 pages; every order of asking children, parents and single members',
     'tests walk children of one recorded collection in one order.',
     [DRES], 'HttpResolverDtsCollection and its lazily filled child/parent sets')
prop('C30', 'Remote CTS passages ask for, and report, the right passage',
     'Every request made from a remote CTS text or passage (references, passage, passage with context, previous/next, first, label) names the URN of that text with exactly one passage component: the asked one, whatever form it is given in. Answers are reported as the references, siblings, labels and titles of the response.',
     ['inputs', 'histories'], 'every reference text (single or range) asked as text, reference, list or URN, from a text or from a passage, with every optional response part present or absent',
     'tests replay recorded responses for a few references.',
     [REM, PCTS], '_SharedMethod.getValidReff/getTextualNode/getPassagePlus/getPrevNextUrn')
prop('C31', 'DTS documents report the navigation of their Link header',
     'The next, previous and parent of a DTS document are those of the Link header of its response, as single references or ranges given by the query of the link, and None when the header has no such link; its collection is that of its text, its children, first and last those of the references listed below it. Listing its references or fetching neighbours asks the server for exactly these.',
     ['inputs'], 'every subset of link relations, single or range targets, arbitrary reference text',
     'tests replay one recorded header.',
     [DDOC, HTTP], 'DtsResolverDocument.parse and its properties')
prop('C32', 'Paging and URI helpers recover what the server said',
     'Parsing pagination headers gives, for each relation, the page of its link wherever the parameter stands in the URI, and None for relations that are absent. Splitting a URI against an endpoint gives the absolute path and all query parameters; prefix expansion replaces only the leading declared prefix.',
     ['inputs'], 'every subset of link relations with up to two query parameters in any order, arbitrary values; every namespace map of 1-2 prefixes',
     'tests use one header and one URI.',
     [HTTP, GRAPH, JLD], 'parse_pagination, parse_uri, expand_namespace, literal_to_dict, dict_to_literal')
prop('C33', 'Extracting a subgraph keeps exactly what was asked',
     'Walking a graph from a node with limits on ascending and descending levels collects exactly the triples within these limits (all connected ones when unlimited), each once, terminates on cyclic graphs, and leaves the source unchanged. The RDF exports of a collection hand the serialiser all that is connected to it.',
     ['inputs'], 'every graph of up to 4 nodes and 4 edges, including cycles, every start node and limits 0, 1, 2, -1',
     'tests export one tree-shaped collection.',
     [GRAPH, 'MyCapytain/resources/prototypes/metadata.py'], 'Subgraph.graphiter; Collection.__export__')
prop('C34', 'A text presents the titles, creator and descriptions of its collections',
     'A text or passage given the metadata of its collection (set_metadata_from_collection, or a local resolver asked for metadata) holds, each in its language, every name of the text group as creator, every title of the work as title, every label of the edition as subject and every description of the edition as description, under the Dublin Core and the CTS names alike. A reply without citation scheme leaves that of the text as it is, and getLabel never replaces one. Read from an API reply (getLabel, GetPassagePlus), it holds the values of the reply, those without language in the default one. Asked in a language, it gives a value in that language, some other if there is none, None only if there is no value. It takes the citation scheme of the collection only when it has none of its own. The metadata object of the text says the same of its creator, title, subject and description. Nothing else changes: not the collections, not other texts or passages.',
     ['inputs', 'histories'], 'every text group, work and text with up to 3 arbitrary values in any fields and languages; one or two texts, of one work or not; local and remote',
     'tests fill one text from one inventory with one value per language; fields, languages and texts sharing a work are combinations.',
     [PCTS, PTEXT, INV, REM, RLOC], 'PrototypeCtsNode.set_metadata_from_collection, get_cts_metadata; TextualElement.get_*/set_*; CtsTextMetadata.get_*; _SharedMethod._parse_request')
prop('C35', 'Copied and pickled objects say what the originals say',
     'A deep copy, or what pickle reads back, of a CTS or DTS reference or set of references, a URN, a citation scheme (taken at its root or below it), a collection (generic, CTS inventory or part of one, DTS collection), a metadata object or a local text or passage reports exactly what the original reports: same type, bounds and types of references, levels, names and links of citations, identifiers, labels and metadata in every language, members and parents, exported bytes, references, passages and text; and the same holds for a copy of a copy. It is independent: changing the copy does not change the original nor the other way round, and reading a pickle while another graph is the current one gives the same answers. A shallow copy (copy.copy) of a reference, a set of references or a URN equals the original. Collections still bound to a remote service (lazily loaded) are outside.',
     ['inputs', 'histories'], 'references of 1-2 arbitrary characters, plain or ranges, in sets of up to 2; URNs of every form; citation schemes of up to 3 levels; inventories of up to 2 members a level; up to 2 metadata values; two small texts and their passages; then changed on either side',
     'tests pickle one text inventory and one citation; references, DTS objects and independence of the two sides are not looked at.',
     [BASE, DTS1, PMETA, META, INV, LOCAL], 'BaseCitation.__getstate__/__setstate__, DtsReference.__getnewargs__, Collection, Metadata.__getstate__/__setstate__, PrototypeCtsWork etc., CapitainsCtsText')
prop('C36', 'What is said in one graph stays in it',
     'The library writes everything it knows of collections, texts and metadata in the current graph (set_graph). A generic collection, CTS inventory, DTS collection, metadata object or text created while a graph was current keeps to that graph: whichever graph is current later, and whatever is said of objects with the same identifiers in another, what it reports (labels, values by key and language, type, model, members), what is added to or removed from it, and the meaning of its exports (JSON, RDF/XML, JSON-LD, DTS JSON, CTS and CapiTainS XML: always well formed, every name in its namespace) are what they would be if there had been no other graph. Nothing is written into a graph that is current only while reading.',
     ['inputs', 'histories'], 'two graphs prepared with bind_graph, with further prefixes that agree, clash or are missing; one object in each, of the same or different kinds, with up to 2 members (1 in the quick run), arbitrary labels and values, keys in bound and unbound namespaces; changed and read under either graph or a third',
     'tests use one graph, or replace it before each test.',
     [META, PMETA, GRAPH, CCTS, INV], 'Metadata.graph, __export__; Collection.graph, __export__, __namespaces_header__; Subgraph; make_xml_node')
prop('C37', 'A collection says of itself what it was told, and nothing of others',
     'Whatever is said of collections of any class (generic, resource, DTS, CTS inventory, text group, work, edition, translation, commentary), in any order: get_label(lang) is a label in that language, some other if there is none, None only if there is no label, and every label is among the metadata; type and model are those of the class until given, version, type, model and lang the last one given; CTS properties are by language and links are those set. A resource gives its Dublin Core creator, title, description and subject. The creator of a CTS text is the name of its text group, its title that of its work, its subject its own label, its description its own; its language is its own, else the one its work had when it was attached. What is said of one collection changes nothing of another.',
     ['inputs', 'histories'], 'two collections of any two classes told up to 2 things (3 when thorough), a text group, work and two texts told up to 2 (3) in any field and language, with values of 1-2 arbitrary characters, empty ones included',
     'tests set one label in one language; fallbacks between languages and classes sharing one graph are histories.',
     [PMETA, INV], 'Collection.get_label/set_label, type, model, version; ResourceCollection; PrototypeCtsCollection.set_cts_property/get_link/set_link; CtsTextMetadata.get_*')
