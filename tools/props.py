prop("C01", "Parsing preserves the configuration lines",
     "Parsing keeps every line of the given configuration, whether it comes from a list, a tuple or a file, with its text and in its order (only trailing "
     "whitespace, line terminators and, on request, blank lines are dropped). Lines are numbered 0..n-1 by position, and writing the configuration out and "
     "reading it back gives the same lines.",
     ["inputs"], "every list of lines, every file content and line-terminator style, every syntax, classifier and blank-line setting",
     "The tests parse a dozen fixed configurations; blank lines in unusual places, mixed terminators, empty files and whitespace-only lines are sampled once or never.",
     ["ciscoconfparse.py"], [("file reader", "ciscoconfparse.py:read_config_file"), ("line bootstrap", "ciscoconfparse.py:ConfigList.bootstrap_obj_init_ng")],
     "Exhaustive over all short line sequences/file contents of a small alphabet; larger inputs only by selected long cases. Trusts Python's file and string primitives.")
prop("C02", "Indentation defines the parent of every line",
     "The parent of an indented configuration line is the nearest preceding configuration line that is indented less; an unindented line is its own root. "
     "The children of a line are exactly the lines whose parent it is, in configuration order, and comments or blank lines never capture a configuration line. "
     "An indented comment directly below a configuration line that is indented no more than itself has the parent which a configuration line there would have.",
     ["inputs"], "every indentation shape, including comments, blank lines, dedents to intermediate levels and repeated texts",
     "Tests check the parents of a few sample configurations; the stack-of-parents algorithm depends on whole indentation histories, which are infinitely many.",
     ["ciscoconfparse.py"], [("parent cache", "ciscoconfparse.py:ConfigList._maintain_bootstrap_parent_cache"), ("child linking", "ciscoconfparse.py:ConfigList._build_bootstrap_parent_child")],
     "Exhaustive over indentation shapes up to the stated length; deeper nesting by staircases. Brace-opening lines of non-brace syntaxes are out of scope.")
prop("C03", "Family relations of a line agree with the parent links",
     "Descendants, ancestors, lineage, genealogy, siblings, last family line, and the is-parent/is-child answers of every line are exactly those of the tree, in "
     "configuration order. Two different lines of one configuration are never equal, and lines order by position.",
     ["inputs"], "every configuration tree and every line of it",
     "Tests query a handful of lines in fixed configurations; wrong ordering, equal-hash lines and deep nesting only show in shapes they do not contain.",
     ["ccp_abc.py", "ciscoconfparse.py"], [("family properties", "ccp_abc.py:BaseCfgLine.all_children/all_parents/lineage/siblings"), ("line identity", "ccp_abc.py:BaseCfgLine.calculate_line_id")],
     "Exhaustive over tree shapes to the stated size with distinct and repeated texts.")
prop("C04", "Banners and macros are flat blocks owned by their header",
     "Every line from an IOS/NX-OS banner header to the line holding its delimiter, or from a macro header to its '@' line, is a direct child of the header in order, whatever its "
     "own indentation, and is a child of no other line. Lines after the block are parsed as if the block were not there, and an unterminated block neither fails nor loses lines.",
     ["inputs"], "every banner type, delimiter, body and terminator placement, and every following configuration",
     "A few fixed banners are tested; delimiters that occur in the command, empty or one-line bodies and missing terminators are not.",
     ["ciscoconfparse.py"], [("banner regex", "ciscoconfparse.py:ConfigList._build_banner_re_ios"), ("banner children", "ciscoconfparse.py:ConfigList._banner_mark_regex"), ("macro children", "ciscoconfparse.py:ConfigList._macro_mark_children")],
     "Exhaustive over headers x short bodies x terminators x continuations. A block header inside another block's body is out of scope.")
prop("C05", "The line classifier only adds a documented class to each line",
     "With the classifier on, a configuration has the same lines, numbers and tree as with it off. Each line gets the class documented for its command in that syntax, decided by its "
     "own text and never by the lines around it.",
     ["inputs"], "every configuration made of well-formed commands of the four indentation syntaxes",
     "Tests assert the class of single sample lines; they cannot show that no neighbouring line changes it or that the tree is unaffected.",
     ["ciscoconfparse.py", "models_cisco.py", "models_nxos.py", "models_iosxr.py", "models_asa.py"], [("factory", "ciscoconfparse.py:config_line_factory"), ("class predicates", "models_cisco.py:is_object_for (and the other models)")],
     "Exhaustive over sequences of a command vocabulary that covers every line class; classes are an explicit table.")
prop("C06", "A brace configuration parses to the hierarchy its braces spell",
     "In a brace-delimited configuration each statement becomes one line without its brace or semicolon, whose parent is the statement that opened the innermost enclosing block. "
     "The source's own indentation, spacing and comment lines do not influence the tree, and closing braces add no statement.",
     ["inputs"], "every well-formed or truncated nesting of blocks, leaves, one-line blocks, quoted braces, comments, and every layout of it",
     "Two sample Junos files are tested; layouts and brace placements are unbounded.",
     ["ciscoconfparse.py"], [("brace scanner", "ciscoconfparse.py:parse_line_braces"), ("conversion", "ciscoconfparse.py:convert_junos_to_ios")],
     "Exhaustive over token sequences up to the stated length in three layouts. One brace open/close per line ('show configuration' layout).")
prop("C07", "A line search returns exactly the matching lines",
     "Searching for a regular expression returns all lines that match it, only those, in configuration order; exact match means the whole line, and ignoring whitespace means any run of it. "
     "Searching never changes the configuration.",
     ["inputs"], "every configuration and regular expression, with every combination of options",
     "The options and regex constructs are tested one by one on one configuration.",
     ["ciscoconfparse.py"], [("search", "ciscoconfparse.py:find_objects/find_lines/has_line_with/_find_line_OBJ"), ("whitespace", "ciscoconfparse.py:build_space_tolerant_regex")],
     "Exhaustive over small configurations x a regex table; Python's re is the oracle.")
prop("C08", "Parent/child searches select lines by their family",
     "A search for parents with (or without) a matching child, for parents with all (or missing some) children, or for children of matching parents returns exactly the lines whose children "
     "- or all descendants when recursing - satisfy it, in configuration order without duplicates. The whitespace, escaping and recursion options only change what counts as a match.",
     ["inputs"], "every configuration tree, parent pattern and child pattern, with every combination of options",
     "Each method has a few example queries; combinations of options, nested matches and repeated lines are not covered.",
     ["ciscoconfparse.py"], [("searches", "ciscoconfparse.py:find_parent_objects/find_parent_objects_wo_child/find_child_objects/find_objects_w_all_children/..."), ("child match", "ccp_abc.py:BaseCfgLine.re_search_children")],
     "Exhaustive over small trees x pattern tables; the tree comes from the parent links of C02.")
prop("C09", "A branch search returns every matching root-to-leaf chain",
     "For a tuple of patterns the result holds one row per maximal chain of lines in which each line matches its pattern and is a child of the one before, in configuration order, padded with "
     "None after the first level without a match. The regex flags apply to every level, and group results are the capture groups (or text) of exactly those lines.",
     ["inputs"], "every configuration tree and every pattern tuple",
     "Five fixed queries are tested.",
     ["ciscoconfparse.py"], [("branch search", "ciscoconfparse.py:find_object_branches")],
     "Exhaustive over small trees and pattern tuples up to length 3 (selected ones of length 4).")
prop("C10", "Family extraction returns exactly the family of the matches",
     "Extracting children, all descendants, blocks of siblings with their ancestors, or the lineage of a match returns exactly those lines, once each, in configuration order, also when matches "
     "overlap. An interface is found by any abbreviation of its type followed by its full number, in any letter case, and by nothing else.",
     ["inputs"], "every configuration tree and pattern; every interface name and abbreviation",
     "Tests extract from one QoS configuration; overlapping matches and ambiguous prefixes are not covered.",
     ["ciscoconfparse.py", "models_cisco.py"], [("extraction", "ciscoconfparse.py:find_children/find_all_children/find_blocks/find_lineage"), ("abbreviations", "models_cisco.py:_build_abbvs")],
     "Exhaustive over small trees x patterns x options; sibling blocks are judged for nested matches only.")
prop("C11", "Typed extraction returns the first match cast as asked",
     "Extracting a value from a line, or from the first matching line of its family in configuration order, returns the requested group cast to the requested type. Without a match it returns the "
     "default, cast unless asked otherwise; named groups come back as a dictionary under the same rules.",
     ["inputs"], "every configuration tree, line, pattern, group, type, default and recursion setting",
     "Examples in the tests fix the tree and the pattern; which line is reached first and whether defaults are cast depends on combinations.",
     ["ccp_abc.py", "ciscoconfparse.py"], [("typed extraction", "ccp_abc.py:re_match_typed/re_match_iter_typed/get_typed_dict/has_child_with")],
     "Exhaustive over small trees x a table of patterns, groups, types and defaults.")
prop("C12", "Every editing operation changes exactly the lines it names",
     "Inserting, appending, prepending, replacing and deleting lines, through the configuration or through a line object, changes exactly the selected lines: the new text appears once next to each of "
     "them, a deletion (or a replacement which leaves a line empty) removes each selected line with its descendants, everything else stays in place. Texts and line numbers are right after every step of every history.",
     ["histories"], "every sequence of editing operations, with and without commits in between, on every configuration",
     "Tests apply one operation to one configuration; lines with equal or prefix texts, and a second operation before the commit, are hardly covered.",
     ["ciscoconfparse.py", "ccp_abc.py"], [("parser edits", "ciscoconfparse.py:insert_before/insert_after/insert_after_child/delete_lines/replace_*/append_line/prepend_line"), ("line edits", "ccp_abc.py:BaseCfgLine.delete/append_to_family/re_sub/insert_*")],
     "Exhaustive over operation histories to the stated depth on small configurations, against a plain list. Families between commits are those of the last commit.")
prop("C13", "Committing an edit equals parsing the edited lines afresh",
     "After commit(), or right after a change made with atomic=True, lines, numbers, parents, children, comment flags and line classes are exactly those of a new parse of the same text with the same "
     "options. Committing again changes nothing.",
     ["histories"], "every history of editing operations on every configuration, with banners, macros, comments and kept blank lines",
     "Tests compare a few edited configurations; leftover links of earlier trees only show after particular histories.",
     ["ciscoconfparse.py"], [("commit", "ciscoconfparse.py:CiscoConfParse.commit/atomic"), ("rebuild", "ciscoconfparse.py:ConfigList.bootstrap_obj_init_ng")],
     "Exhaustive over operation histories of depth 2 (3 in the thorough tier).")
prop("C14", "Saving and reloading a configuration loses and adds nothing",
     "save_as() writes each current line, terminated, in the encoding of the configuration, replacing the target. Reading that file gives the same lines, tree and classes, and saving it again gives the "
     "same bytes. Saving does not change the configuration.",
     ["histories"], "every edited configuration, encoding and line-terminator style of the source",
     "One test saves one configuration.",
     ["ciscoconfparse.py"], [("save", "ciscoconfparse.py:CiscoConfParse.save_as"), ("load", "ciscoconfparse.py:CiscoConfParse.read_config_file")],
     "Exhaustive over operation histories of depth 2; crashes during the write are not promised to be safe and not explored.")
prop("C15", "The list of lines behaves as a list",
     "The configuration's list of line objects answers every list operation - indexing, slicing, assignment, deletion, append, extend, pop, remove, insert, reverse, sort, concatenation, repetition, "
     "copying, membership, counting, iteration, comparison (all six operators) - as a Python list of the same objects does, and a copy never changes its original.",
     ["histories"], "every sequence of list operations",
     "Tests use indexing and append; slicing, copying and concatenation are not tested.",
     ["ciscoconfparse.py"], [("list protocol", "ciscoconfparse.py:ConfigList")],
     "Exhaustive over histories of 42 operations to the stated depth. Insertion by text and del (which reparse) are judged by texts.")
prop("C18", "IPv4Obj reports the address and network it was given",
     "An IPv4Obj built from any accepted spelling - text, address and mask, integer, another object - answers every property (address, network, masks, wildcard, broadcast, counts, offset, notations) as the "
     "standard library does for that interface. Arithmetic and setters move it as the integer does, inside its bounds; anything which is no IPv4 address is refused.",
     ["inputs"], "every IPv4 address, prefix length, spelling and arithmetic step",
     "Tests use a few addresses; boundaries (0.0.0.0, 255.255.255.255, /0, /31, /32) and each property with each spelling are not covered.",
     ["ccp_util.py"], [("IPv4 objects", "ccp_util.py:IPv4Obj")],
     "Exhaustive over every prefix length x boundary addresses x spellings; the oracle is integer arithmetic and Python's ipaddress.")
prop("C19", "IPv6Obj reports the address and network it was given",
     "An IPv6Obj built from any accepted spelling of an IPv6 interface answers every property (address, network, masks, offset, flags, embedded IPv4 forms, notations) as the standard library does. "
     "Arithmetic and setters move it as the integer does, inside its bounds; text which is no IPv6 address is refused.",
     ["inputs"], "every IPv6 address, prefix length, spelling and arithmetic step",
     "Tests use a few addresses; compression forms, embedded IPv4 and the ends of the address space are not covered.",
     ["ccp_util.py"], [("IPv6 objects", "ccp_util.py:IPv6Obj")],
     "Exhaustive over every prefix length x boundary addresses x spellings (all zero-compression placements); the oracle is integer arithmetic and Python's ipaddress.")
prop("C20", "IP objects behave as sets of addresses with one order",
     "Containment between IP objects is set inclusion of their networks; comparison is one total order per family which agrees with equality and hashing, longer prefixes and sorting included. Collapsing "
     "networks keeps exactly the covered addresses. An IPv4 object never equals or contains an IPv6 one; ip_factory() picks the family by the text.",
     ["inputs"], "every pair and list of IP objects",
     "Tests compare and collapse a few pairs.",
     ["ccp_util.py"], [("order and containment", "ccp_util.py:IPv4Obj/IPv6Obj comparison methods"), ("helpers", "ccp_util.py:collapse_addresses/ip_factory")],
     "Exhaustive over all ordered pairs of a universe with both ends of the address space, and over all subsets of small networks for collapsing.")
prop("C21", "An interface name parses to its components and back",
     "A Cisco IOS interface name gives exactly its prefix, slot, card, port, subinterface, channel and class; the name rendered from them parses to the same ones. Interfaces order by these numbers, equal "
     "ones have equal hashes. After setting components, in any order, every view shows them.",
     ["histories"], "every interface name and every sequence of component assignments",
     "Tests parse a dozen names and set no components after each other.",
     ["ccp_util.py"], [("interface names", "ccp_util.py:CiscoIOSInterface")],
     "Exhaustive over all combinations of present/absent components x spellings, all pairs for the order, and assignment histories of the stated depth. Malformed names are not claimed.")
prop("C23", "A CiscoRange is the sorted set its text denotes",
     "A CiscoRange holds exactly the integers or interfaces its text denotes, once each and sorted, in every result type and from any spelling. The compressed text denotes the same members. Appending, "
     "removing, adding, subtracting, assigning and slicing act on that set, reading it never changes it, and operators leave their operands alone.",
     ["histories"], "every range text and every sequence of operations",
     "Tests expand some twenty texts into sets; mutation, operators, compressed interface ranges and lists are not covered.",
     ["ccp_util.py"], [("ranges", "ccp_util.py:CiscoRange")],
     "Exhaustive over range texts of up to 3 items x name forms x spellings, and over operation histories against a sorted list. Descending ranges are not claimed.")
prop("C24", "A layer-4 port specification means exactly its ports",
     "An L4Object (ASA) lists exactly the ports of its specification - eq, bare, neq, lt, gt, range, by number or service name, with any spacing - for TCP and UDP, shows them compressed, and equals another one "
     "exactly if protocol and ports are the same. Specifications with a port outside 1-65535 or an unknown name are refused.",
     ["inputs"], "every operator with every port number and service name",
     "Tests use one example per operator.",
     ["ccp_util.py", "protocol_values.py"], [("ports", "ccp_util.py:L4Object"), ("names", "protocol_values.py:ASA_TCP_PORTS/ASA_UDP_PORTS")],
     "Exhaustive over all ports for eq, and over the ends of the space and every service name for the other operators; the oracle is set arithmetic over 1..65535.")
prop("C16", "diff() and rollback() lead from one configuration to the other",
     "Executing the commands of Diff.diff() on the old configuration gives the new one; executing those of rollback() on the new one gives the old one. Every command has an effect and stands below the sections "
     "it belongs to; equal configurations give none. Text, lists and files are the same configuration, None is an empty one.",
     ["inputs"], "every pair of configurations in every input form",
     "Tests compare six pairs with literal results.",
     ["ciscoconfparse.py"], [("diff", "ciscoconfparse.py:Diff")],
     "Exhaustive over pairs of small sections and mixed configurations; the commands are executed on a reference configuration tree. The library hier_config does the comparison and is part of what is checked.")
prop("C17", "A hierarchical diff names exactly the kept, removed and added lines",
     "The unified diff of HDiff keeps exactly the lines of both configurations, removes those only in the first and adds those only in the second, each below its own parents, in the order of its configuration, "
     "in every syntax, leaving its inputs alone. Executing the commands of sync_diff() makes the lines which match the line specification equal to the required ones and changes no others.",
     ["inputs"], "every pair of configurations, line specification and syntax",
     "Tests compare two pairs of ios configurations with literal results.",
     ["ciscoconfparse.py", "ccp_abc.py"], [("diff", "ciscoconfparse.py:HDiff"), ("sync", "ciscoconfparse.py:CiscoConfParse.sync_diff")],
     "Exhaustive over pairs of configurations up to the stated length against set arithmetic on paths; the sync commands are executed on a reference tree.")
prop("C25", "A type-7 password decrypts to the text which was encrypted",
     "CiscoPassword.decrypt() inverts the published type-7 encryption for every salt, length and character, in upper or lower case hex, and whether the encrypted text is given to the constructor, to "
     "decrypt(), or to both (the argument wins).",
     ["inputs"], "every salt, password length and character",
     "Tests decrypt a dozen strings, none longer than the key and few salts.",
     ["ciscoconfparse.py"], [("type 7", "ciscoconfparse.py:CiscoPassword")],
     "Exhaustive over salts 0-52 x lengths 1-60, and over every character with every salt; oracle: the published encryption, run forwards.")
prop("C26", "Every attribute of an IOS interface is what its configuration lines say",
     "An IOS interface answers every attribute - name and number parts, addresses and subnets, MTUs, VRF, helpers, access groups, timers, flags - from its own lines alone: the same whatever the order of the lines, "
     "the other features, unrelated lines, descriptions which quote commands, or neighbouring interfaces; and after lines are added or removed, from the lines which are there then.",
     ["inputs", "histories"], "every combination and order of interface commands",
     "Tests read one attribute of a few interfaces; combinations, orders, look-alike lines and edits are not covered.",
     ["models_cisco.py", "ccp_abc.py"], [("IOS interfaces", "models_cisco.py:BaseIOSIntfLine/IOSCfgLine"), ("typed matching", "ccp_abc.py:BaseCfgLine.re_match_iter_typed")],
     "Exhaustive over single values, ordered pairs, look-alike lines and edits of a table of features; each attribute is compared with a reference computed from the chosen features, not from the text.")
prop("C27", "A switchport reports its mode and exactly the vlans its trunk allows",
     "trunk_vlans_allowed is the vlan set which the allowed, add, except and remove lines of the port denote, and 0 on access ports; mode, encapsulation, access and native vlan, DTP, port-security, storm-control and "
     "MAC access groups are those of the port's own commands, in any order and with any other lines.",
     ["inputs", "histories"], "every trunk vlan list and every combination of switchport commands",
     "Tests read fixed examples of each keyword; sets, boundaries and combinations are not covered.",
     ["models_cisco.py", "ccp_util.py"], [("switchports", "models_cisco.py:BaseIOSIntfLine"), ("vlan lists", "models_cisco.py:trunk_vlans_allowed")],
     "Exhaustive over trunk lists x add/except/remove lines of boundary vlan sets, single values, ordered pairs, look-alike lines and edits; oracle: set arithmetic on 1..4094.")
prop("C28", "HSRP groups and HSRP attributes are those of the standby commands",
     "Each HSRP group of an IOS interface reports exactly its own addresses, priority, preemption and delay, timers (in seconds or milliseconds), tracked objects with decrement, and authentication; groups never mix, "
     "whatever the order of the lines and the text of descriptions. The attributes of the interface agree with its only group.",
     ["inputs", "histories"], "every combination and order of standby commands of two groups",
     "Tests read no HSRP attribute.",
     ["models_cisco.py"], [("groups", "models_cisco.py:HSRPInterfaceGroup/TrackingInterface"), ("interface", "models_cisco.py:BaseIOSIntfLine.hsrp_*")],
     "Exhaustive over single values, ordered pairs and triples of the commands of groups 1 and 12, look-alike lines and edits; reference computed from the chosen features.")
prop("C29", "A static route reports exactly what its command says",
     "An IOS static route - IPv4 or IPv6, in a VRF or not, with a next hop, an interface, both or dhcp, a distance, and name, tag, track, permanent and multicast options in any order - reports exactly its prefix, mask, next hop, "
     "interface, distance and options; no word is taken for another, and after an edit is committed every route line tells what it says then.",
     ["inputs", "histories"], "the whole grammar of the command, every IPv6 text shape, every prefix length",
     "Tests read 12 route lines with the options in one order.",
     ["models_cisco.py"], [("parser", "models_cisco.py:_RE_IP_ROUTE/_RE_IPV6_ROUTE"), ("attributes", "models_cisco.py:IOSRouteLine")],
     "Exhaustive over the grammar (options in every order x next hop x VRF x distance), masks, address shapes and edit histories of a list of routes; reference: the fields the line was built from.")
prop("C30", "AAA, line, hostname and global commands have their own class and fields",
     "With factory=True an IOS command gets the class of its kind whatever surrounds it and after any committed edit; AAA lists report list name, level, server group, record type and methods in order; server groups their servers, "
     "VRF and source interface; access lines their range and exec-timeout; hostname and global lines their setting.",
     ["inputs", "histories"], "every ordered pair of commands; every list, group and method order",
     "Tests read one line per class.",
     ["models_cisco.py", "ciscoconfparse.py"], [("factory", "ciscoconfparse.py:config_line_factory"), ("aaa", "models_cisco.py:IOSAaa*"), ("line", "models_cisco.py:IOSAccessLine"), ("globals", "models_cisco.py:IOSIntfGlobal/IOSHostnameLine")],
     "Exhaustive over pairs (thorough: triples) of commands, AAA grammars, ordered subsets of server group lines, access lines with ranges, timeouts and other lines, and replacements of every command by every other.")
prop("C31", "Every attribute of an NX-OS interface is what its configuration lines say",
     "An NX-OS interface answers every attribute - name parts, address and subnets, VRF, relay addresses, port-channel, vPC, FEX, spanning-tree, access groups, flags, and the HSRP group with its address, priority, timers, "
     "tracking and key chain - from its own lines alone, whatever their order, the other lines, and the neighbouring interfaces, also after edits; a dhcp interface raises DynamicAddressException.",
     ["inputs", "histories"], "every combination and order of interface commands and of the commands of an HSRP group",
     "Tests read single attributes of a few interfaces; combinations, orders, look-alike lines and edits are not covered.",
     ["models_nxos.py", "ccp_abc.py"], [("NX-OS interfaces", "models_nxos.py:BaseNXOSIntfLine/NXOSCfgLine"), ("HSRP", "models_nxos.py:hsrp_*")],
     "Exhaustive over single values, ordered pairs, look-alike lines, edits, and ordered choices of HSRP commands; each attribute is compared with a reference computed from the chosen features, not from the text.")
prop("C32", "An NX-OS switchport reports its mode and exactly the vlans its trunk allows",
     "trunk_vlans_allowed of an NX-OS port is the set which its trunk commands leave when executed in order, 0 on access ports and non-switchports; mode, access and native vlan, port-security, storm-control and MAC access "
     "groups are those of the port's own commands, in any order and with any other lines.",
     ["inputs", "histories"], "every sequence of trunk commands and every combination of switchport commands",
     "Tests read fixed examples; sequences of commands, boundaries and combinations are not covered.",
     ["models_nxos.py", "ccp_util.py"], [("switchports", "models_nxos.py:BaseNXOSIntfLine"), ("vlan lists", "models_nxos.py:trunk_vlans_allowed")],
     "Exhaustive over sequences of trunk commands up to the stated length, single values, ordered pairs, look-alike lines and edits; oracle: set arithmetic on 1..4094.")
prop("C33", "NX-OS routes, vPC domains, AAA, lines and globals have their class and fields",
     "With factory=True an NX-OS command gets the class of its kind whatever surrounds it and after any edit; static routes report prefix, next hop, interface, distance, tag, name and track; a vPC domain its priorities, "
     "flags and keepalive parameters; AAA lists, groups, access lines, hostname and globals the words of the command.",
     ["inputs", "histories"], "every ordered pair of commands; the grammar of each command",
     "Tests read one line per class, and no IPv6 route, AAA or access line.",
     ["models_nxos.py", "ciscoconfparse.py"], [("routes", "models_nxos.py:NXOSRouteLine"), ("vPC", "models_nxos.py:NXOSvPCLine"), ("aaa", "models_nxos.py:NXOSAaa*"), ("factory", "ciscoconfparse.py:config_line_factory")],
     "Exhaustive over pairs (thorough: triples) of commands and over the grammar of each command within the stated values; reference: the fields each line was built from.")
prop("C34", "Every line of every platform tells whether it is an interface and of which kind",
     "is_intf, is_subintf, is_virtual_intf, is_loopback_intf, is_ethernet_intf and is_portchannel_intf, the port-channel of a line, and on Junos the interface name and switchport, are answered - never raised - by every line of "
     "ios, nxos, iosxr, asa and junos configurations, with factory on or off, before and after edits, and agree with the text of that line alone (Junos: its place below interfaces).",
     ["inputs", "histories"], "every ordered pair of lines and every replacement of a line",
     "Tests ask some interface lines; plain lines, look-alikes and other platforms are not asked.",
     ["models_cisco.py", "models_nxos.py", "models_iosxr.py", "models_asa.py", "models_junos.py"], [("questions", "models_*.py:*CfgLine.is_intf etc."), ("junos", "models_junos.py:JunosCfgLine")],
     "Exhaustive over ordered pairs (thorough: triples) of a table of lines per platform and over Junos interface blocks; the reference is the table, or the path of the statement below its braces.")
prop("C35", "Every attribute of an IOS-XR interface is what its lines say",
     "For an interface of an iosxr configuration parsed with factory=True: description, bandwidth, encapsulation, the IPv4 address in all its forms and networks, in_ipv4_subnet(s), speed, duplex, negotiation, "
     "mtu, mpls mtu, shutdown, vrf, and the parts of its name (port, type, ordinals, numbers, abbreviations) have exactly the value its own lines give, whatever their order, whatever other lines it holds, "
     "whatever stands before and after it, and again after lines are removed and put back.",
     ["inputs", "histories"], "every value of every feature, every ordered pair of values, every value beside every unrelated line, every removal and re-adding",
     "The suite holds no test of IOS-XR interfaces at all; the attributes read each other's lines (descriptions with command words, secondary addresses, several mtu commands).",
     ["models_iosxr.py", "ccp_util.py"], [("attributes", "models_iosxr.py:BaseIOSXRIntfLine"), ("IPv4Obj", "ccp_util.py:IPv4Obj")],
     "Exhaustive over a table of headers, feature values and unrelated lines (singles, ordered pairs, noise, neighbours, edit histories; thorough adds headers and triples); reference: the table itself.")
prop("C36", "Every attribute of an ASA interface is what its lines say",
     "For an interface of an asa configuration parsed with factory=True: description, delay, the IPv4 and IPv6 addresses with their standby addresses, masks and networks, in_ipv4_subnet(s), speed, duplex, negotiation, "
     "shutdown, switchport and access vlan, pim, and the parts of its name have exactly the value its own lines give, whatever their order, whatever other lines it holds, whatever stands before and after it, and again "
     "after lines are removed and put back.",
     ["inputs", "histories"], "every value of every feature, every ordered pair of values, every value beside every unrelated line, every removal and re-adding",
     "The suite reads the addresses of two interfaces; the attributes read each other's lines (standby addresses, descriptions with command words).",
     ["models_asa.py", "ccp_util.py"], [("attributes", "models_asa.py:BaseASAIntfLine"), ("IPv4Obj", "ccp_util.py:IPv4Obj"), ("IPv6Obj", "ccp_util.py:IPv6Obj")],
     "Exhaustive over a table of headers, feature values and unrelated lines (singles, ordered pairs, noise, neighbours, edit histories; thorough adds headers and triples); reference: the table itself.")

prop("C37", "ASA names and object-groups hold exactly what their lines say",
     "names maps every name command to its address, object_group_network and object_group_service map every group to its line, and a group's network_strings, networks, network_count, hash_children and ports list exactly the "
     "members of its lines in order, names replaced by their addresses and nested groups by their members; a group that holds itself or a missing group is refused; all of it again after any edit of the groups or the names.",
     ["inputs", "histories"], "every member list of three groups and every history of edits up to a depth",
     "The suite reads five groups once; order of definition, nesting, name changes and edits after the first reading (there is a cache) are not sampled.",
     ["models_asa.py", "ciscoconfparse.py", "ccp_util.py"], [("names, groups", "ciscoconfparse.py:ConfigList.names/object_group_network/object_group_service"), ("members", "models_asa.py:ASAObjGroupNetwork, ASAObjGroupService"), ("ASAName", "models_asa.py:ASAName")],
     "Exhaustive over member lists of three groups which may hold each other x name tables x protocols, and over histories of 15 edits up to depth 2 (thorough 3); reference: a recursive expansion of the lines.")

prop("C38", "ASA access-lists are read line by line, exactly",
     "Every IPv4 ACE of an asa configuration (extended, standard or remark) is an ASAAclLine whose result_dict gives the name, action, protocol number or object, how source and destination are given, logging, level, interval, "
     "disable and time-range of that line; access_list maps every name to its lines, all of them and in order, with factory on or off, after every edit.",
     ["inputs", "histories"], "every combination of the parts of an ACE and every small configuration of ACEs with every edit",
     "The suite asks whether some 70 lines are classified, never what they are read as: the grammar is one regular expression with four overlapping branches.",
     ["models_asa.py", "ciscoconfparse.py", "protocol_values.py"], [("grammar", "models_asa.py:_RE_ACLOBJECT_STR, ASAAclLine"), ("access_list", "ciscoconfparse.py:ConfigList.access_list")],
     "Exhaustive over the grammar of ACEs (protocol x source x port x destination x port, log forms x tails, icmp types) and over configurations of up to 3 lines with one edit (thorough: 4 lines, 2 edits); reference: the parts the line was built from.")
prop("C39", "Compliance diffs name exactly what is missing and what must go",
     "req_cfgspec_all_diff(spec) returns the required lines which no line of the configuration has, in order (ignore_ws: up to blanks). req_cfgspec_excl_diff(line, uncfg, spec) returns, in configuration order, the removal "
     "'no <uncfg text>' of every line which matches and is not required, at its indent and below its parents, each once, then the required lines which are missing; applied to a device the commands remove every violation and nothing else. "
     "add_uncfgtext(text) sets 'no <text>' at the indent of its line, and uncfgtext of any line is the command which removes it. None of this changes the configuration.",
     ["inputs", "histories"], "every small configuration with every small list of required lines and several line and unconfigure regexes, the result applied to a model of a device, and after the edits which make it comply",
     "The suite has a handful of examples with one section; duplicates, nested violations, violations which are parents of others and lists out of order are never tried.",
     ["ciscoconfparse.py", "ccp_abc.py"], [("req_cfgspec_excl_diff", "ciscoconfparse.py:CiscoConfParse.req_cfgspec_excl_diff"), ("req_cfgspec_all_diff", "ciscoconfparse.py:CiscoConfParse.req_cfgspec_all_diff"), ("uncfgtext", "ccp_abc.py:BaseCfgLine.add_uncfgtext, uncfgtext")],
     "Exhaustive over configurations of up to 4 lines over 8 texts (thorough: 5) and required lists of up to 2 (thorough: 3) of 6 to 12 lines; reference: the list computed from the indentation tree, and a device model which applies the commands.")
prop("C40", "What a line and the helpers say about class, place and identity is true",
     "classname and dna are the class of the line, linenum and index its position (by which lines compare), is_config_line, is_comment and has_children its kind, as_diff_dict and diff_id_list its indent, parents and text (equal exactly when those are), "
     "find_objects_dna(rx) the lines whose class name matches, config_hierarchy() the top lines with and without children - after every edit and commit. fix_repeated_words, check_valid_ipaddress, __ccp_re__, sortable_interface_list, "
     "get_typed_dict and as_text_list return what their documentation says for every input.",
     ["inputs", "histories"], "every small configuration of four syntaxes with and without factory and after every edit, and small complete domains of each helper",
     "The suite asks each on one line of one configuration, mostly unedited.",
     ["ccp_abc.py", "ciscoconfparse.py", "ccp_util.py"], [("identity", "ccp_abc.py:BaseCfgLine.diff_id_list, as_diff_dict, verbose"), ("dna", "ciscoconfparse.py:CiscoConfParse.find_objects_dna"), ("helpers", "ccp_util.py:fix_repeated_words, check_valid_ipaddress, __ccp_re__")],
     "Exhaustive over configurations of up to 4 lines over 8 texts per syntax (thorough: 5), one edit (thorough: two), and the listed domains of the helpers; reference: the indentation tree, type(), and the documentation of the helpers.")
prop("C41", "A DNS lookup reports what the asked server says, in time",
     "dns_query() asks exactly the given server (by address or name) the given question - PTR of an address its reverse name - and returns one response per record with its text, type, MX preference and duration; every failure of the "
     "server (no such name, no data, refusal, silence, lateness, an unreachable network, an answer to another question) gives one response with has_error, within the time limit; AXFR gives the whole zone. Truncated answers are "
     "asked again. Invalid arguments are refused without a question. The older helpers do the same for their server.",
     ["faults", "inputs", "histories"], "every behaviour of a nameserver with every delay and time limit, under a virtual clock, every query type and every pair of queries",
     "The suite skips its two DNS tests without a network: none of this is tested at all.",
     ["ccp_util.py"], [("dns_query", "ccp_util.py:dns_query, DNSResponse"), ("older", "ccp_util.py:dns_lookup, dns6_lookup, reverse_dns_lookup")],
     "Exhaustive over the model of the environment: two nameservers below dnspython's UDP/TCP/XFR, 10 behaviours x record sets x 4 delays x 3 limits; reference: the table of the servers.")
prop("C42", "Debugging and logging only watch",
     "Parsing, queries, edits, diffs, address, interface and range objects and the search helpers give the same result, or the same exception, at every debug level and with log handlers on or off, for every text - braces, percent "
     "signs and markup included. A handler added with ccp_logger_control() gets messages until logging is disabled, again once it is enabled, and none after its removal.",
     ["inputs", "histories"], "every operation on every small configuration of five syntaxes, with hostile texts, at every debug level and with a log handler",
     "The suite runs almost everything at debug=0 with logging as it happens to be; the debug branches are other code.",
     ["ciscoconfparse.py", "ccp_abc.py", "ccp_util.py"], [("debug", "ciscoconfparse.py:HDiff.parse_hdiff_configs, ConfigList.bootstrap_obj_init_ng, config_line_factory"), ("logging", "ccp_util.py:ccp_logger_control")],
     "Exhaustive over configurations of up to 3 lines x operations x debug levels x logging; reference: the same operation without debugging and logging (which the other properties decide).")
prop("C43", "run_this_posix_command() reports what the command did",
     "run_this_posix_command(cmd) runs the words of cmd (or the shell text) once, in the given directory, with exactly the given environment (None: the current one) and time limit, and returns its exit status, output and error output, "
     "decoded as asked; a wrong environment is refused and nothing runs.",
     ["inputs", "faults"], "every small command over hostile words, every exit status with every output, every environment, directory and time limit, with and without a shell",
     "The suite never calls it with an environment, a directory, a time limit or a failing command.",
     ["ccp_util.py"], [("run", "ccp_util.py:run_this_posix_command")],
     "Exhaustive over commands of up to 2 words of 13 (thorough: 3) and over the products of status x output, environment x directory x shell; the real code runs real commands in a scratch directory; reference: the words and the environment given.")
prop("C44", "Objects do not influence each other",
     "What a program does with one set of library objects - configurations, lines, diffs, addresses, ranges, interfaces, ACL and object-group objects, lists, searches - gives the same results whatever the same process does, before, between or "
     "at the same time in another thread, with objects of its own. A deep copy or a pickled and restored copy of an object equals it and neither changes when the other is edited. Nothing depends on the hash seed, and a "
     "call changes no state of the process (working directory, environment, locale, warnings, recursion limit, signal handlers) unless asked to.",
     ["schedules", "histories"], "every interleaving of the operations of two users, and two real threads with a preemption at every line of the library",
     "The suite makes one object per test and looks at it at once; caches, class attributes, default arguments and module globals shared between objects never show.",
     ["ciscoconfparse.py", "ccp_abc.py", "ccp_util.py", "models_*.py"], [("lists", "ciscoconfparse.py:ConfigList"), ("values", "ccp_util.py:CiscoRange, IPv4Obj, IPv6Obj, CiscoIOSInterface"), ("lines", "ccp_abc.py:BaseCfgLine")],
     "Exhaustive over all interleavings of the steps of each ordered pair of 30 users (thorough: triples); the real code in two threads under a controlled scheduler, one preemption at every executed library line (thorough: every pair, and two "
     "preemptions for some); reference: each user alone in a fresh process.")
prop("C45", "Reading changes nothing, and answers are the caller's own",
     "Asking is free of side effects: no property, search or listing of a configuration, of one of its lines, or of an address, range, interface, port, password or diff object changes what any other question, or the same question again, answers. "
     "What an answer consists of - lists, dictionaries, sets, address, range and interface objects, but not the lines of the configuration - belongs to the caller, who may change it without changing any later answer. "
     "An edit shows in every later answer, whatever was asked before it. Arguments (lists of lines, specifications, group dictionaries, operands) are neither changed by a call nor kept: changing them afterwards changes nothing, and giving "
     "the same ones again gives the same result.",
     ["histories"], "every ordered pair of questions with the first answer changed in between, and every single-line edit after every question",
     "The suite asks each object one question and throws the answer away; aliased containers, caches which an edit does not clear and mutated arguments show only in the second question.",
     ["ciscoconfparse.py", "ccp_abc.py", "ccp_util.py", "models_*.py"], [("caches", "ciscoconfparse.py:ConfigList"), ("answers", "models_*.py"), ("values", "ccp_util.py:CiscoRange, IPv4Obj, IPv6Obj, CiscoIOSInterface"), ("lines", "ccp_abc.py:BaseCfgLine")],
     "Exhaustive over all ordered pairs of the questions (properties found by introspection, searches, operators) of 7 configurations and 13 values, all single-line edits of them after all questions (thorough: after each single one), and a table of "
     "all calls which take containers; reference: a fresh object which is asked that one question first.")
