//! What each check's cases are, for the evidence files.

pub fn rule(id: &str) -> &'static str {
    match id {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C07" | "C08" | "C28" => "A case is a random route configuration (file or structs), its generated router compiled, and random requests to it (declared paths, damaged segments, refused parameters, odd slashes, random bytes; known and unknown methods), each answer compared with the reference model. Evaluations are the requests this property speaks about. Non-trivial: distinct (configuration, request) pairs whose reference answer exercises the property (for C02 a path sharing at least a segment or a byte with a declared one, for the others an answer that is not NotFound).",
        "C06" => "A case is a compiled router and base paths, each asked in its four forms. Non-trivial: distinct (configuration, path, method) whose answer is not NotFound.",
        "C09" => "A case is a configuration and a random reordering at every level, both routers compiled and asked the same requests. Non-trivial: distinct (configuration, request) with an order that really differs and an answer that is not NotFound.",
        "C10" => "A case is a compiled router and route values built by client code; to_path at each level, and matching the path again. Non-trivial: distinct (configuration, resource, values) with a parameter or a module.",
        "C11" => "A case is a configuration with query parameters, a client naming the fields it should have, and requests. Non-trivial: distinct ones where a resource has a query parameter.",
        "C12" => "A case is a random configuration, its code type-checked by rustc. Non-trivial: distinct configurations with more than the root.",
        "C13" => "A case is a configuration and a client program, written from the configuration alone, that uses every type, field and variant. Non-trivial: distinct configurations with a parameter or a module.",
        "C14" => "A case is a random configuration printed, parsed and printed again. Non-trivial: distinct configurations with more than the root.",
        "C15" => "A case is a configuration written plainly and in a random layout, both parsed. Non-trivial: distinct texts that differ from the plain one.",
        "C16" => "A case is a text (well formed, damaged by 1-3 edits, or lines at random) read by the parser and by an independent line-based reader; the part 'small' is every text of up to 4 lines (5 in the thorough tier) out of 27. Non-trivial: distinct texts that the reference accepts or refuses after its root line.",
        "C17" => "A case is any text (damaged route files, token soup, bytes, long lines, many lines), parsed and its report displayed. Non-trivial: distinct texts that are refused.",
        "C18" => "A case is a well-formed route file with one line damaged; the report is compared with the damage. Non-trivial: distinct refused texts.",
        "C19" => "Part 'structs': a history of mounts over a pool of configurations, compared with a model; part 'routers': base, mounted and combined routers compiled and asked corresponding requests. Non-trivial: distinct results of a mount; distinct requests whose answer is not NotFound.",
        "C20" => "A case is a configuration written with the macros in a compiled program and as a route file. Evaluations are macro calls. Non-trivial: distinct configurations with more than one resource.",
        "C21" => "A case is a configuration with marker headers (macros redefined in sequence, constants that record the step, comments, repeated lines, definitions over several lines); the constants are read back from every module, and header lines are counted in the text. Non-trivial: distinct configurations with more than one module.",
        "C22" => "A case is a configuration generated repeatedly: same value, equal value of other origin, other thread, after other code, other process. Non-trivial: distinct configurations with more than three resources.",
        "C23" => "A case is a valid configuration (which must not be refused) and the same with one conflict planted at a random place (which must be). Non-trivial: distinct conflicting configurations.",
        "C24" => "Per configuration every write call fails in turn, and random byte positions fail or write nothing, with short and interrupted writes; part 'devices': the builder and the tool against a full device, a vanished reader and a file size limit. Non-trivial: distinct (configuration, fault) pairs.",
        "C25" => "A case is one build in a scratch directory by the builder or the tool: origin, names, environment, target and previous contents at random. Non-trivial: distinct (configuration, calls, previous contents).",
        "C26" => "A case is one build that has to fail, for one planted reason. Non-trivial: distinct (reason, input, names).",
        "C27" => "A case is a configuration; the listing in its generated documentation is read back, and every struct's documentation is compared with its declaration. Non-trivial: distinct configurations with more than the root.",
        "C29" => "A case is a configuration with and without one block or resource; both routers compiled and asked requests that do not concern it. Non-trivial: distinct requests whose answer is not NotFound.",
        "C30" => "Part 'goal': batches of requests to the checked-in router, a router generated from its listing, and the model; part 'examples': a path given to both example programs. Non-trivial: distinct requests whose answer is not NotFound.",
        "C31" => "A case is a router compiled twice: one copy is asked each request once, the other a random sequence of them with repetitions, and all of them from four threads in different orders, with path and method as byte slices, strings, vectors and a type of the client's own. Evaluations are answers compared. Non-trivial: distinct (configuration, request, previous request) whose answer is not NotFound.",
        "C37" => "A case is a node of a random configuration, a level, and a text that follows: block, nested block, resources, methods, parameters and header lines each printed, followed by the text, and read by the parser for that part; or a character and what names may contain. Evaluations are parts read. Non-trivial: distinct blocks of more than one entry, and distinct characters.",
        "C36" => "A case is a compiled router and requests to it, each put while allocations are counted and the parameter types record what they are asked to parse. Evaluations are requests whose answer is right. Non-trivial: distinct (configuration, request) pairs that match at least a segment.",
        "C32" => "A case is 2 to 6 texts (route files with mutations, lines and characters at random), read in a random sequence, in three threads at once, and for one case in eight in a new process in another order. Evaluations are readings compared. Non-trivial: distinct texts of more than one character.",
        "C33" => "A case is a random configuration taken n, 2n and 4n times, side by side or at the end of a path of that length (n from 2 to 50). Non-trivial: distinct (configuration, n, shape) where the configuration has more than the root.",
        "C34" => "A case is three arbitrary strings, a handler, and a configuration with one change. Evaluations are single equations. Non-trivial: distinct triples of strings.",
        "C35" => "A case is a random configuration, its code compiled with warnings denied. Non-trivial: distinct configurations with more than the root.",
        _ => "",
    }
}

pub fn assumptions(id: &str) -> Vec<&'static str> {
    let mut v = vec![];
    match id {
        "C14" | "C15" | "C16" | "C17" | "C18" | "C25" | "C26" | "C32" | "C34" | "C37" => {}
        _ => {
            v.push("configurations are within the domain described in DESIGN.md (legal and distinct names after case conversion, none reserved; static segments ASCII; redirect targets exist with the same fields)");
        }
    }
    match id {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C07" | "C08" | "C10" | "C11" | "C28" => {
            v.push("deviations listed in known_findings.txt are accepted only where the model of the listed deviation predicts exactly the answer observed");
            v.push("parameter types implement Debug, Eq, Display and FromStr, with a Debug error");
        }
        "C06" | "C09" | "C19" | "C29" | "C30" | "C36" => {
            v.push("requests whose way meets a listed known finding (K1-K4) are left to the checks that list it");
        }
        "C12" => v.push("editions 2015, 2018 and 2021, with the installed stable rustc"),
        "C16" => v.push("whitespace-only lines and line breaks inside braces, brackets, around :: and -> are left open by the documentation: such texts may be accepted or refused, and if accepted the visible reading is compared where there is one"),
        "C17" => v.push("texts up to a megabyte, nested to a depth a 64 MB stack can hold"),
        "C20" => v.push("only what both syntaxes can express: no query parameters on redirects, types that are identifiers"),
        "C31" | "C32" => v.push("interleavings of threads are those the operating system gives"),
        "C35" => v.push("default lints of the installed stable rustc; editions 2018 and 2021; no header of the user's own"),
        "C26" => v.push("runs as root, so files without read permission are not among the faults"),
        _ => {}
    }
    v
}
