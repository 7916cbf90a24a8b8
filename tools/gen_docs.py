#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, level_note, technique, state=None, hook=None, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, level_note=level_note, technique=technique, state=state, hook=hook, level=level))

p("C01", "A posting left without an amount receives exactly the balancing amount",
  "When exactly one posting of a transaction is written without an amount and the others come to a single commodity (a posting with a cost counting in the cost's commodity), that posting gets exactly the negative of the others' exact decimal sum, in that commodity. This holds wherever the blank posting stands, for any number of postings, and also for transactions added through the programming interface; all the other postings stay as given.",
  ["inputs"], "every transaction with one blank posting: any number and order of postings, any decimals, costs and lots",
  "The tests balance a few two- and three-posting transactions with round positive numbers; signs, scales, costs, position of the blank posting and posting counts are not varied.",
  ["src/xact.rs", "src/amount.rs", "src/post.rs"], [("finalize: running balance and null post", "src/xact.rs"), ("Amount arithmetic", "src/amount.rs")],
  "Generated journals and API transactions; the filled-in amount is compared with an independent exact (big integer) sum.", "property-based testing: generated journals against an exact reference model")
p("C02", "Reading a journal yields its transactions and postings as written",
  "After a well-formed journal is read, the journal holds exactly the written transactions in the written order, each with its date, auxiliary date, payee (\"Unknown Payee\" where none is written) and notes, and each with exactly its written postings in order, under the named accounts and with the written amounts. Several note lines of a transaction or posting are all kept, joined by line breaks; comment lines between transactions add nothing. Reading a new journal reports the number of its transactions.",
  ["inputs"], "every well-formed journal of the supported format",
  "The tests read about a dozen fixed journals; lengths, counts, unusual characters, note placement and combinations of elements are not varied.",
  ["src/parser.rs", "src/scanner.rs", "src/xact.rs", "src/post.rs", "src/journal.rs"], [("Parser::parse and the scanner's tokens", "src/parser.rs, src/scanner.rs"), ("Xact::create, add_note", "src/xact.rs")],
  "Generated journals are rendered to text and what is read is compared field by field with the data the text was rendered from.", "property-based testing: round trip from generated data through text to the journal")
p("C03", "Equivalent spellings of a journal are read as the same journal",
  "Spellings that differ only in the amount of separating or trailing spaces, in LF or CRLF line ends, in the place of the commodity before or after the number and with or without a space, in zeros that do not change a number, in the zero-padding of months, days and times, in extra blank or comment lines or in the presence of the last line end are read as the same journal. An amount, cost or lot price written in any of these forms has the same quantity and commodity.",
  ["inputs"], "every pair of spellings of every journal",
  "The tests fix one spelling per element; the product of spacing, placement, line ends and zeros is not sampled.",
  ["src/scanner.rs", "src/parser.rs", "src/pool.rs", "src/amount.rs"], [("scan_amount, tokenize_post, tokenize_xact_header, price directive scanning", "src/scanner.rs")],
  "Metamorphic: one data set is spelled several ways at random; the readings are compared with each other.", "property-based testing: metamorphic relation between random spellings")
p("C04", "Given costs, lots and amounts are kept as written",
  "A posting with a unit cost has exactly quantity times unit cost as its cost, a posting with a total cost has exactly the written cost, and a posting without one is given none except where a conversion is implied. A lot price or date never changes an amount or cost, the lot first written for a commodity is kept with its price and date, and no written amount or given cost is altered by what else the transaction contains.",
  ["inputs"], "every mix of costs, lots and plain postings in a transaction",
  "The tests have a handful of postings with a cost, always positive and alone of their kind in the transaction.",
  ["src/parser.rs", "src/xact.rs", "src/scanner.rs", "src/annotate.rs"], [("parse_post: cost from unit or total price", "src/parser.rs"), ("finalize", "src/xact.rs")],
  "Generated transactions dense in costs and lots; costs compared exactly with a model.", "property-based testing: generated journals against an exact reference model")
p("C05", "A two-commodity transaction without costs implies a conversion that balances",
  "When all postings of a transaction have amounts, none has a cost, and the amounts come to non-zero totals of opposite sign in exactly two commodities, each posting in the first-mentioned commodity gets a cost in the other one, in the proportion of the two totals, so that the transaction balances by cost (up to the last digits of decimal division). No amount is changed, the other postings get no cost, and a transaction with given costs, a blank posting, or one or more than two commodities gets no implied cost.",
  ["inputs"], "every transaction: numbers of postings, their order and signs, decimals, commodities",
  "The tests have one two-posting conversion; several postings per commodity, signs and order are not varied.",
  ["src/xact.rs", "src/pool.rs", "src/balance.rs"], [("finalize: two-commodity branch", "src/xact.rs"), ("CommodityPool::exchange", "src/pool.rs")],
  "Generated transactions; the implied cost is compared with amount*|y|/|x| in exact arithmetic within the rounding of a 28-digit quotient.", "property-based testing: generated journals against an exact reference model")
p("C06", "The balance report states the exact totals of every account's subtree",
  "For every account the report has one line, in order of the account tree (parents first, siblings by name), which states for each commodity the exact sum of all the amounts posted to that account and to accounts below it, and nothing else. The totals per account that the programming interface gives are the same.",
  ["inputs"], "every journal and every account of it",
  "The tests look at reports of two small journals with one or two commodities.",
  ["src/report.rs", "src/account.rs", "src/balance.rs", "src/amount.rs"], [("Account::amount and total", "src/account.rs"), ("Balance::add", "src/balance.rs"), ("report_balances", "src/report.rs")],
  "The report lines of generated journals are taken apart and compared with sums over the generated data.", "property-based testing: generated journals against an exact reference model")
p("C07", "The account tree is exactly the named accounts and their ancestors",
  "At any time the account tree consists of exactly the accounts named so far, by postings or registration, and their ancestors, each once and under its full name; names (without empty parts) differing in any character are different accounts. Looking up a full name, or a name relative to an account, finds exactly that account, and finds nothing (and creates nothing) where there is none; registering a known name gives the known account. The list of accounts covers every account.",
  ["histories"], "every sequence of registrations, lookups and readings",
  "The tests register a few names on a fresh journal; longer sequences, shared prefixes, deep names and missing names are not covered.",
  ["src/account.rs", "src/journal.rs", "src/report.rs"], [("Account::find_or_create, find_account, fullname, flatten_account_tree", "src/account.rs"), ("Journal::register_account", "src/journal.rs")],
  "Stateful: the tree is compared with a set of paths after each operation.", "stateful property-based testing against a model of the account tree")
p("C08", "Links within a journal stay valid as it grows",
  "However the journal grows (readings, accounts, commodities, prices, transactions added), and after it is moved, every posting leads to its own transaction and to its account in the account tree, every account lists exactly the postings read for it in order, every account leads to its parent, every amount and price leads to the journal's commodity, and none of these leads to freed or moved memory. Accounts and commodities obtained earlier remain the journal's accounts and commodities.",
  ["histories"], "every history of growth: any number of transactions, postings per transaction, accounts and commodities, in any order",
  "The tests use journals of a few postings; the storage only moves at certain sizes and orders, and a dangling link usually still reads as the old value.",
  ["src/journal.rs", "src/xact.rs", "src/account.rs", "src/pool.rs", "src/post.rs", "src/history.rs"], [("boxed accounts, commodities and postings; relinking of postings", "src/journal.rs, src/xact.rs, src/account.rs, src/pool.rs")],
  "Stateful, on an allocator that overwrites and withholds freed memory and moves every grown block; addresses are compared before they are followed.", "stateful property-based testing with a poisoning allocator",
  state=[{"name": "xacts, posts, accounts, commodities", "meaning": "stores linked by raw pointers", "where": "src/journal.rs, src/pool.rs"}], hook="read access to the price history")
p("C09", "Each commodity symbol denotes one commodity",
  "In one journal each symbol denotes one and the same commodity, wherever and however often it is used (amounts, costs, lots, prices, programming interface), different symbols denote different commodities, and the number of commodities is the number of distinct symbols used. Looking up a symbol or an index finds that commodity, and finds nothing for a symbol that was never used; an amount without a symbol has no commodity.",
  ["histories"], "every sequence of uses and lookups of symbols",
  "The tests create one to three commodities; identity over longer histories and unusual symbols is not covered.",
  ["src/pool.rs", "src/commodity.rs", "src/history.rs", "src/parser.rs"], [("CommodityPool::find_or_create, find, find_index", "src/pool.rs"), ("node per commodity", "src/history.rs")],
  "Stateful: the pool is compared with a map of symbols after each operation.", "stateful property-based testing against a model of the pool", hook="number of commodities in the price graph")
p("C10", "The price history is exactly what the journal establishes",
  "After reading, the known prices are exactly those given by price directives (at their date and time, midnight if none is written), by postings with a cost (cost per unit without sign, at the transaction's date) and by implied conversions (the rate, at the transaction's date); a later statement for the same pair and moment replaces the earlier one. Each is stored for the right pair of commodities, in the right direction and with its exact value, and lots add no prices.",
  ["inputs"], "every journal with prices, costs and conversions",
  "The tests add one or two prices and look at counts or one value.",
  ["src/pool.rs", "src/history.rs", "src/xact.rs", "src/parser.rs", "src/scanner.rs"], [("parse_price_directive, exchange", "src/pool.rs"), ("CommodityHistory::add_price", "src/history.rs")],
  "The whole history, read through a guarded hook, is compared with a model.", "property-based testing: generated journals against an exact reference model", hook="read access to the price history")
p("C11", "A price lookup gives the latest direct price or a shortest chain's product",
  "Looking up the price of one commodity in another gives the most recent direct price if there is one; otherwise the product of the most recent prices along a chain with the fewest steps, dated with the least recent of them; and nothing if no chain of prices leads from the one to the other. The result is in the target commodity, and looking up changes nothing.",
  ["inputs", "histories"], "every price history and every pair of commodities",
  "The tests look up one direct and one two-step price.",
  ["src/history.rs", "src/pool.rs"], [("CommodityHistory::find_price, calculate_rate, get_direct_price", "src/history.rs")],
  "Random price graphs; every ordered pair is compared with a breadth-first search over all shortest chains.", "property-based testing: random price graphs against a reference search", hook="price lookup")
p("C12", "How a journal is divided among sources makes no difference",
  "A journal divided at transaction boundaries into several texts, several files, nested included files (at any point) or a source that delivers the bytes in arbitrary pieces yields the same transactions in the same order, the same accounts, prices, lots and report as the same journal read from one text. Included files may have any name, including names with spaces.",
  ["inputs", "configurations"], "every journal and every way to divide it",
  "The tests include one file with one transaction and read from two fixed files.",
  ["src/parser.rs", "src/lib.rs", "src/journal.rs", "src/reader.rs"], [("include_directive", "src/parser.rs"), ("session over input files", "src/lib.rs")],
  "Metamorphic: the divided reading is compared with the reading of the whole.", "property-based testing: metamorphic relation between divisions of a journal")
p("C13", "Every way to give a command yields the same report",
  "The balance and accounts commands give the report of the journal made of the named files, whether they come as an argument list, as a command string (with quoting) or through the program, whatever the order of command and options, and whichever of the command's names is used. The program prints the same report and succeeds.",
  ["inputs", "configurations"], "every form of command and every set of files",
  "The tests run two or three commands on the repository's sample files.",
  ["src/lib.rs", "src/option.rs", "src/main.rs", "src/report.rs"], [("process_arguments", "src/option.rs"), ("run, run_command, execute_command", "src/lib.rs")],
  "Generated files and command forms; the output is compared with the report of the same text through the interface; the program is run as a child process.", "property-based testing: differential between the command entry points")
p("C14", "Arithmetic on amounts is exact and never mixes commodities",
  "Adding, subtracting, multiplying, negating, converting and comparing amounts and quantities gives the exact decimal result wherever it can be represented, division is right to the last digits, and reading and printing a quantity loses nothing. Sums of amounts of different commodities are refused, and a balance keeps each commodity's exact sum apart; a product or quotient is in the commodity of the first operand that has one.",
  ["inputs"], "all representable decimals, commodities and sequences of operations",
  "The tests compute with a few small integers in one commodity.",
  ["src/amount.rs", "src/balance.rs", "src/value.rs", "src/commodity.rs"], [("operators of Amount and Quantity", "src/amount.rs")],
  "Generated decimals of up to 28 digits against big-integer arithmetic.", "property-based testing against exact big-integer arithmetic")
p("C15", "Malformed journals and commands are refused, never silently altered",
  "A journal with a malformed element (unreadable date, quantity, cost, lot or price; text after an amount or within a lot; a lot not closed or given twice; more than one blank posting, or one facing several commodities; a single posting; a cost in the posting's own commodity, without a commodity or without an amount; an unindented or stray posting; an unknown directive; a missing or malformed included file, or one that includes itself) is refused wherever the element stands. So is an unknown command or option, a missing file, and an option without its argument.",
  ["inputs"], "every malformed element, at every place of every otherwise valid journal",
  "There are almost no tests of refusal.",
  ["src/parser.rs", "src/scanner.rs", "src/xact.rs", "src/pool.rs", "src/option.rs", "src/lib.rs"], [("panics and expects of the parser", "src/parser.rs, src/scanner.rs"), ("finalize", "src/xact.rs")],
  "One malformed element is put into a generated valid journal; refusal is a panic of the library.", "property-based testing: injected malformed elements")
p("C16", "Any input is refused or yields a self-consistent journal",
  "Whatever text is given, the library either refuses it or produces a journal in which every line that starts a transaction became a transaction with its date and payee, every posting line became a posting to the account and with the number it names (one without an amount balances the transaction), every price line became a price and no other line was passed over but comments (and option lines), all links are intact, the grand total is the sum of all postings, and the report has a line for every account. It never corrupts memory and always comes to an end.",
  ["inputs"], "all texts",
  "The tests only give well-formed texts.",
  ["src/parser.rs", "src/scanner.rs", "src/xact.rs", "src/pool.rs"], [("bounds and unwraps of the scanner, raw pointers of the model", "src/scanner.rs, src/parser.rs")],
  "Mutations of generated journals and token soup, on a poisoning allocator; accepted inputs are checked for consistency.", "structured mutation fuzzing with an invariant oracle", hook="read access to the price history")
p("C17", "Balances do not depend on the order of transactions and are additive",
  "Putting the transactions of a journal in another order changes no account's balance in any commodity, and the balances of a journal are the sums of the balances of its parts read separately.",
  ["inputs", "histories"], "every journal and every permutation or division of its transactions",
  "No test compares two orders of the same transactions.",
  ["src/report.rs", "src/account.rs", "src/balance.rs", "src/xact.rs"], [("Balance::add, Account::total", "src/balance.rs, src/account.rs")],
  "Metamorphic: balances of permuted and divided journals are compared.", "property-based testing: metamorphic relation between orders and divisions")
p("C18", "An exchange breaks a cost down exactly",
  "Exchanging an amount for a cost yields the amount unchanged, the total cost (the given cost, times the absolute quantity if it is per unit) exactly and in the cost's commodity, and as basis the quantity times the price of the lot first written for the commodity if that lot has a price, otherwise the total cost. The price it reports is the cost per unit without sign, for the right commodity and dated at the exchange; there is none for a zero cost or within one commodity, and the exchange by itself adds nothing to the price history.",
  ["inputs"], "all amounts, costs and lots",
  "The tests exchange one amount with one lot.",
  ["src/pool.rs", "src/annotate.rs", "src/parser.rs"], [("CommodityPool::exchange", "src/pool.rs"), ("Annotation::parse", "src/annotate.rs")],
  "Generated amounts, costs and lots against exact arithmetic.", "property-based testing against exact arithmetic")
p("C19", "A source that fails is refused, never read as a shorter journal",
  "If reading a journal's source fails at any point (an error from the source, or bytes that are not text), or a named file cannot be read, the reading is refused; it never ends as if the journal had ended there. A source that is merely interrupted, or delivers few bytes at a time, is read completely.",
  ["fault_sequences", "inputs"], "every journal and every position of the fault",
  "No test injects a read error.",
  ["src/parser.rs", "src/lib.rs"], [("read_line errors in Parser::parse and xact_directive", "src/parser.rs"), ("opening of files", "src/lib.rs")],
  "Faults are injected at every byte of small journals and at chosen bytes of larger ones.", "fault injection at every byte of generated journals", level="fault_enumeration")
p("C20", "The same journal always gives the same report",
  "Reading the same journal and giving the same command yields the same report, byte for byte, every time: in another process, with other hash keys, and after other journals were read.",
  ["inputs", "configurations"], "every journal, and every seed of the hash maps",
  "A test compares one run with a literal; an order taken from a hash map shows only with some keys and several commodities or accounts.",
  ["src/report.rs", "src/account.rs", "src/balance.rs", "src/pool.rs"], [("ordered storage of accounts and of a balance's amounts", "src/account.rs, src/balance.rs")],
  "Each journal is read several times under chosen hash map keys; the reports are compared byte for byte.", "property-based testing: repeated runs under varied hash keys")
p("C21", "Looking at a journal changes nothing and answers repeat",
  "No report, lookup, total, list, exchange or repeated registration of a known account changes any transaction, posting, account, commodity or price of a journal, whatever the caller does with the answer; and the same question asked again, with other questions between, gets the same answer.",
  ["histories"], "every journal and every sequence of questions",
  "The tests ask a journal one question each; none asks again or looks at what asking changed.",
  ["src/report.rs", "src/account.rs", "src/journal.rs", "src/pool.rs", "src/history.rs"], [("report functions", "src/report.rs"), ("Account::total, amount, find_account, flatten_account_tree", "src/account.rs"), ("find, find_index, exchange, find_price", "src/pool.rs, src/history.rs")],
  "Stateful: random questions on generated journals; the whole state before and after is compared, and repeated answers with each other.", "stateful property-based testing: invariance of the state under questions", hook="read access to the price history")
p("C22", "A refused reading leaves what was read before intact",
  "When a reading into a journal is refused, every transaction read before (by earlier readings, or by the refused one before the malformed element) remains with its postings, amounts, costs, notes and links, as do the accounts, commodities and prices, nothing is listed twice, and at most the refused transaction itself is added. The journal stays usable: reports cover it and later readings give what they would have given.",
  ["histories", "fault_sequences"], "every sequence of readings, of which any may be refused at any malformed element",
  "No test uses a journal after a refusal.",
  ["src/parser.rs", "src/xact.rs", "src/journal.rs", "src/account.rs"], [("xact_directive, parse_post, finalize: order of adding and checking", "src/parser.rs, src/xact.rs")],
  "Stateful: readings with injected malformed elements; the journal is compared with a model after each.", "stateful property-based testing: injected malformed elements against a model")
p("C23", "Transactions built through the API become what the same text becomes",
  "A transaction built through the programming interface, added to a journal and finalized has the same date, payee, notes, postings, filled-in amounts, costs and implied costs, and establishes the same accounts, commodities and prices, as the same transaction read from text, whatever was read or added before it; so does a price added through the interface.",
  ["inputs", "histories"], "every transaction, and every mix of read and built transactions in a journal",
  "The tests build one or two transactions and look at a count or one amount.",
  ["src/xact.rs", "src/journal.rs", "src/post.rs", "src/pool.rs"], [("Journal::add_xact, Xact::add_post, finalize", "src/journal.rs, src/xact.rs"), ("CommodityPool::add_price", "src/pool.rs")],
  "Generated transactions, some built and some read into one journal, compared field by field with a model.", "property-based testing: differential between the interface and text", hook="read access to the price history")
p("C24", "Pieces of text read through the API mean what they mean in a journal",
  "An amount, a number with a symbol, a date or a price line that is read through the programming interface, in any spelling, means what it means in a journal: the same quantity and the journal's own commodity, the same day at midnight, the same price at the same moment. Nothing is read as no amount, and an unreadable number, date or time is refused, without a price being added. No piece adds transactions or accounts, or commodities that it does not name.",
  ["inputs", "histories"], "every amount, date and price line, in every spelling, after any others",
  "The tests read a few fixed pieces, and hardly any malformed ones.",
  ["src/parser.rs", "src/scanner.rs", "src/pool.rs", "src/amount.rs"], [("parse_amount, parse_amount_parts, parse_datetime", "src/parser.rs"), ("scan_amount", "src/scanner.rs"), ("CommodityPool::parse_price_directive", "src/pool.rs")],
  "Sequences of generated pieces, well-formed and malformed, compared with the data they were spelled from.", "property-based testing: round trip from generated data through text")
p("C25", "Journals are independent of each other",
  "However many journals there are, each is exactly what it would be alone: what is read into one, in whatever order the journals grow, in the same thread or in several at a time, never shows in another, whether they name the same accounts and commodities or not. Dropping a journal, or a journal that is refused, leaves the others as they are.",
  ["histories", "schedules"], "every number of journals and every order in which they grow, are looked at and dropped",
  "The tests have one journal each, mostly one per process at a time.",
  ["src/journal.rs", "src/pool.rs", "src/account.rs", "src/parser.rs", "src/lib.rs"], [("all state is held by the Journal", "src/journal.rs, src/pool.rs, src/account.rs")],
  "Stateful: the elements of a generated journal are dealt out to several, which grow in turns or in threads; each is compared with a model of its own.", "stateful property-based testing against a model per journal", hook="read access to the price history")


with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        a = {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]]}
        if x["state"]: a["state"] = x["state"]
        a["hook_needed"] = x["hook"]
        f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["qtext"]}, "why_tests_cant": x["why"], "anchors": a}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "bash /verif/build.sh",
     "hooks": {"guard": "cfg(ledger_verif)", "enable": "RUSTFLAGS=\"--cfg ledger_verif --cfg ledger_verif_lots\" (see /verif/build.sh)", "source_commits": ["3cb33f6", "17d90ae"]},
     "checks": [{"property": x["id"], "quick_cmd": f"bash /verif/check.sh {x['id']}", "thorough_cmd": f"bash /verif/check.sh {x['id']} thorough",
                 "technique": x["technique"], "level": x["level"],
                 "level_note": x["level_note"] + " Assurance: no counterexample among the generated cases; trusts the generator's coverage of the format and the reference in /verif/harness."} for x in P],
     "not_applicable": []}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
for x in P:
    assert len(x["title"]) <= 80, x["title"]
