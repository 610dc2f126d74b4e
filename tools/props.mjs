// The properties: source of properties.jsonl and of MANIFEST.json (node tools/gen.mjs).
const L = "lib/digitraffic-common/src/";
const Q = (over, text) => ({ over, text });
export const PROPS = [
  {
    id: "P01",
    title: "Lambda HTTP responses are faithful, cacheable and within size limits",
    statement:
      "For every response a lambda builds, a client that honours the response's headers and its base64 flag recovers exactly the body that was put in (text, JSON or binary), with the status code, content type, file name, last-modified time and redirect location asked for. The entity tag is a well-formed strong tag that depends only on the delivered body, the body is compressed only when compression was asked for and makes it smaller, and contradictory options are refused instead of producing an undecodable response. No response body larger than the platform limit of 6 MiB is ever sent; the client gets a client-error response instead.",
    quantifier: Q(["inputs", "configurations"], "for every body (empty, ASCII, multi-byte text, nested JSON, arbitrary bytes, sizes around 6 MiB), every builder kind and every sequence of builder options"),
    why: "Tests sample a handful of bodies, mostly ASCII, and read single fields; fidelity is a statement about all bodies, all option orders and the size boundary.",
    files: [L + "aws/types/lambda-response.ts"],
    mechanism: [["response builder", L + "aws/types/lambda-response.ts (LambdaResponseBuilder, LambdaResponse)"]],
    technique: "runtime monitoring: reference HTTP client decodes every built response and compares (generated bodies and option sequences)",
    note: "Offline oracle (independent decoder for base64/gzip/ETag/headers) over thousands of generated bodies and builder option sequences, including sizes around 6 MiB. Trusts node zlib/crypto. Explores samples, not all bodies.",
  },
  {
    id: "P02",
    title: "Retrying is bounded, timed and transparent",
    statement:
      "An operation is attempted at most once plus the configured number of retries; attempts stop at the first success, whose value is returned unchanged, or at the first failure which the retry condition rejects, and between attempts exactly the configured waiting time passes and nothing overlaps. When every attempt fails the caller gets an error, failures are logged exactly as the logging mode asks, and retry counts that are not finite or exceed the limit are refused before any attempt. HTTP request retrying happens only for rate-limit and forbidden HTTP failures, at most five times, waiting 2, 4, 8, 16, 32 seconds, with the caller's own arguments each time.",
    quantifier: Q(["schedules", "fault_sequences", "configurations"], "for every sequence of attempt outcomes (success, sync/async failure, hanging attempt), every retry count, waiting function, retry predicate and logging mode"),
    why: "Tests use a few short success/failure sequences with zero waits; timing, overlap, predicates on every attempt and hanging attempts are never observed.",
    files: [L + "utils/retry.ts"],
    mechanism: [["retry loop", L + "utils/retry.ts"], ["request retry", L + "utils/retry.ts (retryRequest)"]],
    technique: "runtime monitoring: trace-specification monitor over attempts, waits and log lines under a virtual clock with injected faults",
    note: "Every attempt, wait and log line is recorded with virtual timestamps and compared with a reference trace. Bounds: retry counts 0..100, a few hundred fault sequences quick, thousands thorough.",
  },
  {
    id: "P03",
    title: "Secrets are delivered exactly, validated and never stale",
    statement:
      "A secret handed to a function has exactly the content the secret store currently holds or held within the last cache lifetime (five minutes by default), restricted to and renamed by the requested prefix; it is not fetched again while the cached value is still fresh. Missing expected keys, unreadable secrets and store failures surface to the caller as errors, never as silently missing values. Database credentials put in the environment match the secret's own fields, values already given in the environment take precedence over the store where lookup is environment-first, and a configured region override is honoured.",
    quantifier: Q(["histories", "inputs", "fault_sequences"], "for every history of secret rotations, reads at arbitrary times, store failures, prefixes and expected keys"),
    why: "Tests use one mocked value; rotation histories against the cache lifetime and failing stores are not sampled.",
    files: [L + "aws/runtime/secrets/secret-holder.ts", L + "aws/runtime/secrets/secret.ts", L + "aws/runtime/secrets/proxy-holder.ts", L + "aws/runtime/secrets/rds-holder.ts", L + "aws/runtime/secrets/dbsecret.ts", L + "aws/runtime/apikey.ts", L + "aws/runtime/environment.ts"],
    mechanism: [["cached holder", L + "aws/runtime/secrets/secret-holder.ts"], ["credential environment", L + "aws/runtime/secrets/proxy-holder.ts, rds-holder.ts"]],
    technique: "runtime monitoring: real AWS SDK client against an instrumented loopback secret store; history monitor (freshness, fetch count, content)",
    note: "The real SDK client talks to an instrumented local endpoint; every read is judged against the recorded rotation history. Virtual time only; wire protocol of the SDK is trusted.",
  },
  {
    id: "P04",
    title: "Database sessions are correct, isolated and always released",
    statement:
      "Work on the database runs in a connection to the configured endpoint (writer or read-only) with the configured user and application name, leftover session state is discarded before the work starts, and the connection is closed afterwards whatever happened. The work's result or error reaches the caller unchanged, a transaction commits exactly when its work succeeded and rolls back exactly when it failed, and read-only work is never sent to the writer. Numeric values come back as numbers and database nulls become undefined values only where asked for.",
    quantifier: Q(["fault_sequences", "histories", "inputs"], "for every sequence of queries, results and failures (connection refused, login rejected, query error, connection lost) and every concurrent mix of sessions"),
    why: "The repository's tests mock the database; connection lifecycle under faults needs a real wire-level server to observe.",
    files: [L + "database/database.ts", L + "database/last-updated.ts", L + "database/models.ts"],
    mechanism: [["session wrapper", L + "database/database.ts"], ["last-updated bookkeeping", L + "database/last-updated.ts"]],
    technique: "runtime monitoring: real PostgreSQL driver against an instrumented wire-protocol server; session-trace checker with fault injection",
    note: "Every session's startup, statements and termination are recorded on the server side and checked against the session specification. The server is a fake speaking the v3 protocol; SQL semantics are out of scope.",
  },
  {
    id: "P05",
    title: "Logging emits exactly one faithful JSON line per call and never throws",
    statement:
      "Each logging call writes exactly one line that parses as JSON and carries the level, time, lambda and runtime names, method, message and custom fields given by the caller, with errors rendered with name, message and stack. A logging call never throws and never alters its argument, whatever values it is given. Text and collections shortened for logs stay within the requested length, keep their prefix and report the true number of omitted items.",
    quantifier: Q(["inputs"], "for every log record (nested, circular, huge numbers, invalid dates, unusual errors, multi-line and non-ASCII text) and every level"),
    why: "Tests log a few plain objects; hostile values are exactly those that appear in production error paths.",
    files: [L + "aws/runtime/dt-logger.ts", L + "aws/runtime/dt-logger-default.ts", L + "utils/logging.ts"],
    mechanism: [["logger", L + "aws/runtime/dt-logger.ts"], ["shortening helpers", L + "utils/logging.ts"]],
    technique: "runtime monitoring: online monitor on the log stream parsing every emitted line against the call that produced it",
    note: "Every write is captured and reconciled 1:1 with calls over generated records. Sampled inputs.",
  },
  {
    id: "P06",
    title: "Observation wrappers never change what they observe",
    statement:
      "Request-handler (logging and error handling), timing and stop-watch wrappers return the wrapped work's own result or error, invoke it exactly once with its own arguments and receiver, and log exactly one duration per call equal to the elapsed time, on success and on failure alike. A stop-watch reports for each named measurement exactly the time between its start and its end, however measurements interleave. Lead-time logging reports the true age and never throws because of bad timestamps.",
    quantifier: Q(["schedules", "inputs", "fault_sequences"], "for every interleaving of starts, ends, nested and concurrent calls and every outcome"),
    why: "Tests check single calls; interleavings and failures of the wrapped work are not sampled.",
    files: [L + "aws/infra/api/handler-factory.ts", L + "utils/stop-watch.ts", L + "utils/logging.ts", L + "utils/lead-time-logging.ts"],
    mechanism: [["request handler wrapper", L + "aws/infra/api/handler-factory.ts"], ["wrappers", L + "utils/logging.ts"], ["stop-watch", L + "utils/stop-watch.ts"]],
    technique: "runtime monitoring: virtual clock and call-trace monitor compare durations, results and invocations with a reference",
    note: "Durations are exact because time is virtual. Sampled interleavings.",
  },
  {
    id: "P09",
    title: "Geometry, distance and coordinate utilities are exact",
    statement:
      "Converting a geometry to text for storage keeps every coordinate, ring and part in order and in the right dimension, for all geometry kinds, so that parsing the text gives the same geometry. Distances between positions and from a position to a geometry equal the great-circle distance within rounding, are symmetric, zero for equal positions and correct on coordinates that are zero. GeoJSON validation accepts exactly features that are valid, and helper conversions never modify their arguments.",
    quantifier: Q(["inputs"], "for every geometry kind, coordinate values, number of rings and parts"),
    why: "Tests use a few single-ring geometries in Finland; multi-part geometries, zero coordinates and the antimeridian are not sampled.",
    files: [L + "utils/geometry.ts", L + "types/geojson.ts", L + "utils/geojson-types.ts"],
    mechanism: [["WKT conversion and distances", L + "utils/geometry.ts"]],
    technique: "runtime monitoring: differential oracle (independent WKT parser, haversine and validator) on generated geometries",
    note: "Independent parser/haversine oracle over thousands of generated geometries. Sampled inputs.",
  },
  {
    id: "P10",
    title: "Input parsing and helper utilities honour their contracts",
    statement:
      "Parsing of request parameters, identifiers (MMSI, IMO, LOCODE), dates, base64, voyage-plan XML and environment values accepts exactly the well-formed inputs, returns what was written, and rejects everything else with an error or the documented empty result. Validators return the parsed value or a bad-request outcome naming the problem. Collection and string helpers agree with their obvious mathematical definition and do not modify their arguments.",
    quantifier: Q(["inputs"], "for every string, number, collection and environment content, including boundary lengths and malformed encodings"),
    why: "Tests sample a handful of well-formed inputs per helper.",
    files: ["utils/utils.ts", "utils/zod-utils.ts", "utils/base64.ts", "utils/date-utils.ts", "marine/id_utils.ts", "marine/rtz.ts", "utils/lambda-proxy-event.ts", "types/validator.ts", "types/nullable.ts"].map((f) => L + f),
    mechanism: [["helpers", L + "utils/utils.ts"], ["identifier checks", L + "marine/id_utils.ts"]],
    technique: "runtime monitoring: reference-model oracle on generated inputs with argument-mutation monitors",
    note: "Each helper is compared with an independent reference on generated and boundary inputs. Sampled inputs.",
  },
  {
    id: "P07",
    title: "API requests reach the function exactly as the client sent them",
    statement:
      "The event a function receives through an API integration is valid JSON and carries exactly the path, query, multi-value query, header and context values the integration declares (plus every query parameter when passing all was asked for, and the base64 body as payload when passing the body was asked for), each value byte for byte, whatever characters it contains. A declared value is never displaced by, and an undeclared one never taken from, anything the client controls. Contradictory or reserved declarations are refused when the API is built.",
    quantifier: Q(["inputs", "configurations"], "for every integration declaration and every request: values with quotes, backslashes, control and non-ASCII characters, colliding names, missing and repeated parameters, arbitrary bodies"),
    why: "Tests compare template text; what the template does to hostile values is only seen by executing it.",
    files: [L + "aws/infra/api/integration.ts"],
    mechanism: [["request template", L + "aws/infra/api/integration.ts (DigitrafficIntegration)"]],
    technique: "runtime monitoring: synthesized request templates are executed on generated requests; the resulting event is compared with the request",
    note: "The templates are taken from the synthesized CloudFormation and executed by velocityjs with the platform's $input/$util objects. Trusts that model of API Gateway. Sampled requests.",
  },
  {
    id: "P08",
    title: "API responses reach the client exactly as the function built them",
    statement:
      "A client of an API integration gets the function's status code, body bytes, content type (plain text for failures), CORS header, ETag, Last-Modified, Content-Disposition and deprecation headers exactly when they were given or configured, for binary and text bodies alike. Legacy integrations route the known error messages to 400, 404 and 500 answers with their error bodies and everything else to the success answer; a function that fails without an answer is never answered as a success but with 500, and static endpoints answer GET and HEAD with the given content, headers and key requirement.",
    quantifier: Q(["inputs", "configurations"], "for every response a function can build, every integration option and every error message"),
    why: "Tests compare template text on a few options; what a client receives is only seen by executing the templates on real responses.",
    files: ["integration.ts", "static-integration.ts", "response.ts", "responses.ts"].map((f) => L + "aws/infra/api/" + f).concat([L + "aws/runtime/digitraffic-integration-response.ts", L + "aws/types/errors.ts"]),
    mechanism: [["response templates", L + "aws/runtime/digitraffic-integration-response.ts"], ["legacy responses", L + "aws/infra/api/responses.ts"]],
    technique: "runtime monitoring: synthesized response templates are executed on real function responses; the client's view is compared with what was built",
    note: "Templates from synthesized CloudFormation executed by velocityjs, function responses built by the real response builder. Trusts that model of API Gateway. Sampled responses.",
  },
  {
    id: "P12",
    title: "Access control lists block exactly the requests that break a limit",
    statement:
      "With an access control list built by the builder, a request is blocked exactly when it breaks a configured limit: its query string is longer than allowed, its address is blacklisted or not whitelisted, its path is forbidden, or its client has exceeded the rate limit that applies to it. Every request is subject to exactly one of the user limits (it identifies itself with the digitraffic-user header) and the anonymous limits, per address or per address and path as asked; counting rules never block. Throttled clients get the 429 answer stating the limit, managed rule groups are present with exactly the requested exclusions, priorities and names are unique, and empty or duplicate configurations are refused.",
    quantifier: Q(["configurations", "histories"], "for every sequence of builder calls and every stream of requests within a rate window"),
    why: "Tests count rules in the template; whether the rules together block the right requests depends on the request stream.",
    files: [L + "aws/infra/acl-builder.ts"],
    mechanism: [["ACL builder", L + "aws/infra/acl-builder.ts (AclBuilder)"]],
    technique: "runtime monitoring: the synthesized rules are run on generated request streams in a WAF simulator; verdicts are compared with a reference model of the limits",
    note: "Simulator implements documented WAF semantics for the statement kinds used; managed groups opaque. Sampled request streams.",
  },
  {
    id: "P13",
    title: "Functions are deployed as asked, with least privilege and monitoring",
    statement:
      "A function built with the function builder or as a monitored function has the name, handler, runtime, memory, timeout, concurrency and environment asked for, runs in private subnets with database network access exactly when database access was asked for, may read exactly the secret it was given and holds no policy nobody asked for; wildcard permissions are refused. It logs JSON to its own group kept for one year, and its alarms fire exactly at the configured duration, error, throttle and memory limits and notify the right topic; disabling alarms in production is refused. Schedules and log subscriptions target exactly the function they were created for with the rate asked for.",
    quantifier: Q(["configurations"], "for every combination of builder options, stack configuration, secret and database access, policies, alarm settings and schedules"),
    why: "Tests check single template fields on default options; privilege is a statement about everything in the template for every option combination.",
    files: ["stack/dt-function.ts", "stack/dt-function-alarms.ts", "stack/monitoredfunction.ts", "stack/lambda-configs.ts", "stack/lambda-log-group.ts", "stack/subscription.ts", "stack/stack.ts", "scheduler.ts"].map((f) => L + "aws/infra/" + f),
    mechanism: [["function builder", L + "aws/infra/stack/dt-function.ts"], ["monitored functions", L + "aws/infra/stack/monitoredfunction.ts"]],
    technique: "runtime monitoring: constructs are executed on random configurations; a template auditor (IAM, network, alarm evaluation) checks the synthesized stack against the request",
    note: "Auditor evaluates IAM statements, security groups, alarms and targets of the synthesized CloudFormation. Sampled configurations.",
  },
  {
    id: "P14",
    title: "Stack checks report exactly the faulty resources",
    statement:
      "For every stack that is synthesized with the checks on, each faulty resource (production flag contradicting the stack name, missing solution tag, function without or with excessive concurrency, without timeout or memory, with a retired runtime or foreign name, publicly accessible bucket, badly cased path or query parameter, unencrypted queue, log group kept for ever) is reported exactly once per fault, as an error or a warning as the rule says, and conforming resources are never reported. A whitelist entry turns an error into a warning and removes a warning, only for the resources its expression matches.",
    quantifier: Q(["configurations"], "for every stack, every mix of faulty and conforming resources and every whitelist"),
    why: "Tests have one fault per stack and no whitelist; false alarms and misses on mixed stacks are not sampled.",
    files: [L + "aws/infra/stack/stack-checking-aspect.ts", L + "aws/infra/stack/stack.ts"],
    mechanism: [["stack checks", L + "aws/infra/stack/stack-checking-aspect.ts"]],
    technique: "runtime monitoring: random stacks are synthesized and the recorded messages compared per resource with an independent count of faults",
    note: "Messages of every resource are reconciled with an independent fault model. Unambiguous names only; unnamed L2 functions and paths of only a parameter are not judged.",
  },
  {
    id: "P15",
    title: "REST APIs answer only who they should, document themselves, own their keys",
    statement:
      "A REST API built with the library admits only callers its access policy allows (listed address ranges; nothing else), answers unknown paths with 404 and refusals with valid JSON bodies, answers CORS preflights exactly on the resources where they were asked for, and its API keys, usage plans and exported endpoint and key parameters belong to that very API (an ambiguous export is refused). Models and documentation parts appear at the places they were given for, with the text and version given, only when documentation is enabled; schemas refer to models of the same API.",
    quantifier: Q(["configurations", "inputs"], "for every API layout, access list, key and plan combination, caller address and documentation structure"),
    why: "Tests assert single template fields; admission is a decision over every caller address and the whole policy, and documentation placement over every resource tree.",
    files: [...["stack/rest-api.ts", "usage-plans.ts", "documentation.ts"].map((f) => L + "aws/infra/" + f), L + "utils/api-model.ts", L + "aws/types/model-with-reference.ts"],
    mechanism: [["REST API construct", L + "aws/infra/stack/rest-api.ts"], ["documentation", L + "aws/infra/documentation.ts"]],
    technique: "runtime monitoring: constructs run on random API layouts; a policy/gateway simulator replays callers against the synthesized template and an auditor compares keys, CORS and documentation with the request",
    note: "Sampled layouts and callers; API Gateway policy and gateway-response semantics are modelled as documented.",
  },
  {
    id: "P16",
    title: "Queues lose nothing: accepted means queued, dead letters are archived",
    statement:
      "A message posted through the queue integration is answered with success exactly when the queue accepted it, with the body unchanged; queues are encrypted, and a message that keeps failing goes to its own dead-letter queue after two attempts and stays there as long as configured. The dead-letter consumer removes a message only after it was stored in the queue's own private bucket (an upload that fails leaves the message in the queue), stores every message it was given, raises the alarm on the warning topic, and holds no more than the permissions this needs.",
    quantifier: Q(["inputs", "faults", "configurations", "histories"], "for every message body, every pattern of refused deliveries and failed uploads, and every queue configuration"),
    why: "Tests look at a template and at one mocked upload; loss needs an upload or delivery that fails at some point of some batch.",
    files: ["infra/sqs-queue.ts", "infra/sqs-queue-internal.ts", "infra/sqs-integration.ts", "runtime/s3.ts"].map((f) => L + "aws/" + f),
    mechanism: [["dead-letter queue", L + "aws/infra/sqs-queue.ts"], ["archiver", L + "aws/infra/sqs-queue-internal.ts"], ["upload", L + "aws/runtime/s3.ts"]],
    technique: "runtime monitoring: the real archiver code with the real S3 client runs in a simulated queue with redelivery and injected S3 faults; an offline checker over the event log decides conservation; templates are audited",
    note: "SQS visibility/redelivery and S3 are protocol-level stand-ins; sampled fault schedules.",
  },
  {
    id: "P17",
    title: "Environment stacks fit together and keep the database private and recoverable",
    statement:
      "Every value a stack imports resolves to what the other stack exports under that name, and the names and parameters published for the database lead to the right endpoint (writer, reader, proxy); the database and its proxy are reachable only from inside the network, encrypted, retained on deletion and backed up as configured, and contradictory configurations are refused. Security findings are notified exactly when they are new, failed and of high or critical severity, and a bucket grant admits exactly the access identity given to exactly that bucket.",
    quantifier: Q(["configurations", "inputs"], "for every environment configuration, every finding and every object request"),
    why: "Each stack is tested alone, if at all; names must agree across stacks that are synthesized separately.",
    files: [...["stacks/db-stack.ts", "stacks/db-proxy-stack.ts", "stacks/db-dns-stack.ts", "stacks/network-stack.ts", "stacks/intra-stack-configuration.ts", "stack/parameters.ts", "import-util.ts", "security-rule.ts", "bucket-policy.ts"].map((f) => L + "aws/infra/" + f)],
    mechanism: [["database stack", L + "aws/infra/stacks/db-stack.ts"], ["cross-stack names", L + "aws/infra/import-util.ts"]],
    technique: "runtime monitoring: whole environments are synthesized and linked by a resolver of exports, parameters and references; event patterns and bucket policies are executed on generated findings and requests",
    note: "Sampled configurations. The exported proxy reader name is documented to be the writer endpoint and is not judged.",
  },
  {
    id: "P18",
    title: "Canaries tell the truth and notifications do no harm",
    statement:
      "A URL canary's step passes exactly when the response has the expected status and satisfies every check attached to it (content type, CORS, headers, readable and valid JSON or GeoJSON), goes to the configured host with the API's key (and without it when access without key is checked), and never writes a secret into step names or reports. A database canary fails exactly when a count breaks its expectation or could not be obtained, running each query once on the read-only endpoint. Canaries are deployed with the handler, schedule, environment, network, alarm and permissions asked for; a Slack notification is sent once with the text given and never fails its caller.",
    quantifier: Q(["inputs", "faults", "configurations"], "for every response, count, list of checks, fault and canary configuration"),
    why: "There are no tests of the checkers at all; a canary that cannot fail looks exactly like a healthy service.",
    files: [...["url-checker.ts", "database-checker.ts", "canary.ts", "canary-alarm.ts", "canary-role.ts", "database-canary.ts", "url-canary.ts"].map((f) => L + "aws/infra/canaries/" + f), L + "utils/slack.ts", L + "aws/runtime/apikey.ts"],
    mechanism: [["URL checks", L + "aws/infra/canaries/url-checker.ts"], ["database checks", L + "aws/infra/canaries/database-checker.ts"]],
    technique: "runtime monitoring: the real checkers run in a model of the canary runtime against generated services and a protocol-level database; verdicts are compared with what was served; templates are audited",
    note: "The Synthetics runtime is a stand-in; sampled responses and fault schedules.",
  },
  {
    id: "P20",
    title: "The CDN sends every request to its own origin with its own key and limits",
    statement:
      "A request through a distribution reaches exactly the origin of the behaviour its path selects, with that behaviour's own key, path prefix, timeout and protocol even when several behaviours share a host, and is answered at the edge exactly when compression, address restriction or redirection demands it. Cache policies vary by exactly the parameters and headers asked for and live as long as configured, request limits block exactly the client that exceeds them, and settings of one behaviour (addresses, image host) never apply to another. Incomplete or contradictory configurations, limits below the service's minimum, and two handlers for the same event are refused.",
    quantifier: Q(["configurations", "inputs", "histories"], "for every set of behaviours over shared origins, in any order of builder calls, and every request"),
    why: "This part of the system has almost no tests; sharing shows only when two behaviours agree in one setting and differ in another.",
    files: ["cloudfront-cdk-stack.ts", "distribution/behavior.ts", "distribution/distribution-builder.ts", "acl/waf-rules.ts", "acl/acl-creator.ts", "util/edgalambda-factory.ts", "util/edgefunction-factory.ts", "util/cachepolicy-factory.ts", "util/lambda-creator.ts", "util/function-creator.ts"].map((f) => "other/cloudfront/src/" + f),
    mechanism: [["origins", "other/cloudfront/src/cloudfront-cdk-stack.ts"], ["behaviours", "other/cloudfront/src/distribution/behavior.ts"], ["handlers", "other/cloudfront/src/util/edgalambda-factory.ts"]],
    technique: "runtime monitoring: whole stacks with the real bundled handlers are synthesized and a simulated CloudFront plays generated requests against the template; an online checker compares what the origin and the viewer got with what was configured",
    note: "CloudFront's selection and event rules are modelled; sampled configurations and requests.",
  },
  {
    id: "P21",
    title: "Edge handlers serve the right file and never leak a key",
    statement:
      "A request for a camera image goes unchanged to the bucket, or to the image service when it asks for a version; a missing image is answered with an uncached placeholder, any other answer passes with its content and the true modification time. A measurement-history request goes to the bucket that holds its year, to the page's files, or with exactly the query asked to the data service; an incomplete or contradictory query, or one made while the secret cannot be read, is not sent on. The data service's key goes to the data service only and neither it nor internal headers ever reach a viewer.",
    quantifier: Q(["inputs", "faults", "schedules"], "for every request, query, origin answer and secret failure, also when requests overlap in one handler instance"),
    why: "The handlers run outside the region and outside the tests; a leaked key or a cached placeholder needs one particular combination of request and answer.",
    files: ["lambda-weathercam-rewrite.ts", "lambda-weathercam-http-headers.ts", "lambda-lam-redirect.ts", "lambda-lam-headers.ts", "lambda-http-headers.ts", "header-util.ts"].map((f) => "other/cloudfront/src/lambda/" + f),
    mechanism: [["redirects", "other/cloudfront/src/lambda/lambda-lam-redirect.ts"], ["images", "other/cloudfront/src/lambda/lambda-weathercam-http-headers.ts"]],
    technique: "runtime monitoring: the bundled handlers, as found in the synthesized template, run in a simulated CloudFront with generated origin answers and a stand-in secret service with faults; an independent model of the mapping judges every hop",
    note: "CloudFront's event order is modelled; sampled requests.",
  },
  {
    id: "P22",
    title: "The published API description is complete, faithful and internal-free",
    statement:
      "The published description contains every operation, schema and tag of every source exactly as its source describes it (nullable values mended, deprecations marked), the publisher's own title, servers and contacts, and no HEAD, OPTIONS or (when so configured) security details; the page shows the same description and none named by its address. When a source or an upload fails nothing incomplete is published silently, documentation versions made are new for their API, and valid documents pass the schema unchanged.",
    quantifier: Q(["inputs", "configurations", "faults"], "for every set of source descriptions, every configuration and every failing source or upload"),
    why: "The tests merge two tiny documents; collisions of lists, exotic but valid fields and failing sources are never combined.",
    files: [...["lambda/update-swagger/lambda-update-swagger.ts", "lambda/update-api-gateway-documentation/lambda-update-api-gateway-documentation.ts", "swagger-utils.ts", "apigw-utils.ts"].map((f) => "other/swagger-joiner/src/" + f), L + "types/openapi-schema.ts"],
    mechanism: [["merge", "other/swagger-joiner/src/swagger-utils.ts"], ["schema", L + "types/openapi-schema.ts"]],
    technique: "runtime monitoring: the real handlers run against stand-in gateway, application and bucket services with faults; a differential checker compares what was published with what the sources said, and the page script is executed",
    note: "Paths of different sources are distinct, as deployed; sampled descriptions.",
  },
  {
    id: "P23",
    title: "Municipality work events become exactly the trackings they describe",
    statement:
      "Every municipal work event with a mapped task becomes part of exactly one tracking of its machine, once, however often it is fetched, and a failing machine or outage loses nothing that a later run can fetch. Trackings split at a gap in time, distance or speed and when tasks change, chain on to the previous one across runs with its end point, time and heading completed, and only the newest tracking is open. A run that could not do its work fails and does not mark the data checked; task mappings made by hand and other domains stay untouched.",
    quantifier: Q(["histories", "faults", "schedules"], "for every history of events, late arrivals, runs, outages and database failures"),
    why: "The tests feed single batches; chaining over overlapping fetches with failures in the middle of a transaction is a property of histories.",
    files: ["service/paikannin-update.ts", "service/paikannin-utils.ts", "service/common-update.ts", "service/utils.ts", "dao/data.ts", "api/paikannin.ts", "lambda/paikannin-update-data/paikannin-update-data.ts"].map((f) => "road/maintenance-tracking-municipality/src/" + f),
    mechanism: [["update", "road/maintenance-tracking-municipality/src/service/paikannin-update.ts"], ["grouping", "road/maintenance-tracking-municipality/src/service/paikannin-utils.ts"]],
    technique: "runtime monitoring: the real handler runs over generated histories against a stand-in provider and a database that executes its SQL, with injected outages and transaction failures; an offline checker rebuilds every tracking from the events each run could see and compares it with the stored rows",
    note: "SQL is executed by SQLite after translation; points near a limit are not generated.",
  },
  {
    id: "P24",
    title: "Queued messages are stored once or preserved as dead letters",
    statement:
      "Every message the port activity and maintenance tracking services accept ends up in the database exactly once and unchanged, or, when it cannot be handled within the deliveries allowed, unchanged in the dead letter bucket; none disappears, also when the database, the secret or the bucket fails for a while or a message is delivered twice. A bad message does not make its neighbours in the batch fail or be handled again, and nothing of a failed message is half stored. A request is answered as accepted only when its message is on the queue with the very content of the request.",
    quantifier: Q(["histories", "faults", "schedules"], "for every mix of messages, batching, redelivery and fault schedule"),
    why: "Whether a failure means redelivery depends on the handler, its middleware and the queue's configuration together; unit tests see each of them alone.",
    files: ["marine/portactivity/src/lambda/process-queue/process-queue.ts", "marine/portactivity/src/lambda/process-dlq/lambda-process-dlq.ts", "marine/portactivity/src/internal-lambdas-stack.ts", "marine/portactivity/src/integration-api.ts", "marine/portactivity/src/sqs.ts", ...["lambda/process-queue/process-queue.ts", "lambda/process-dlq/process-dlq.ts", "lambda/update-queue/update-queue.ts", "service/maintenance-tracking.ts", "service/sqs-big-payload.ts", "dao/maintenance-tracking-dao.ts", "internal-lambdas.ts", "sqs.ts"].map((f) => "road/maintenance-tracking/src/" + f)],
    mechanism: [["timestamps", "marine/portactivity/src/lambda/process-queue/process-queue.ts"], ["trackings", "road/maintenance-tracking/src/lambda/process-queue/process-queue.ts"]],
    technique: "runtime monitoring: queues simulated from the synthesized template deliver to the real handlers over a database that executes their SQL, with injected faults and redeliveries; an offline conservation and exactly-once checker accounts for every accepted message",
    note: "Queue semantics are modelled; SQL is executed by SQLite after translation.",
  },
  {
    id: "P25",
    title: "Port call timestamps: stored, combined, shown and cleaned away by the rules",
    statement:
      "A timestamp taken off the queue is stored exactly when it is valid and its port call (except for Awake.AI predictions) and ship can be found, as the nearest matching port call of that ship and port, with the missing identifier filled in; calculated arrivals of ships known to lie still are dropped, a repetition is stored once, and a port call that moved to another port loses its Portnet timestamps of the old one. GET timestamps and the public ship list show, at any moment, of the stored timestamps exactly those selected that lie in the window (from 12 hours ago, Portnet at most 14 days ahead; the list: from 1 hour ago or 6 for ATA and ATD, to the requested number of hours ahead, 96 by default, and no ETA of arrived ships), only the newest record of each, with VTS A calculations averaged, outdated ones and predictions dropped where better ones exist, in the order of time; requests naming nothing valid are refused, and whatever names ships have, the page shows them. The cleaning deletes exactly the timestamps and pilotages over seven days old.",
    quantifier: Q(["inputs", "histories"], "for every set of ships and port calls, sequence of timestamps and moment of the query"),
    why: "What is shown depends on rows that arrived in any order over days, on the time of the query and on four cooperating rules; tests fix a handful of pairs.",
    files: ["lambda/process-queue/process-queue.ts", "lambda/get-timestamps/get-timestamps.ts", "lambda/get-shiplist-public/get-shiplist-public.ts", "lambda/delete-old-timestamps/delete-old-timestamps.ts", "service/timestamps.ts", "service/timestamp-validation.ts", "service/shiplist.ts", "dao/timestamps.ts", "dao/shiplist-public.ts", "event-sourceutil.ts", "public-api.ts"].map((f) => "marine/portactivity/src/" + f),
    mechanism: [["storing", "marine/portactivity/src/service/timestamps.ts"], ["queries", "marine/portactivity/src/dao/timestamps.ts"], ["combining", "marine/portactivity/src/event-sourceutil.ts"]],
    technique: "runtime monitoring: generated histories of messages, queries, page views and cleanings run through the real handlers on a virtual calendar over a database that executes their SQL; a reference model kept alongside is compared with the tables after every batch and with every answer",
    note: "SQL is executed by SQLite after translation; ages and differences within a minute of the one-hour limits, and calculations earlier than Awake.AI's by an hour, are left open.",
  },
  {
    id: "P26",
    title: "Every deployed function is packaged, configured, permitted and reachable",
    statement:
      "In the template of every application, each function and canary names a handler that the repository's build puts into the package it is deployed from, whose module loads with exactly the environment the template gives and which, whatever invokes it, never misses a setting. Every AWS call a function makes is one its role allows on that resource, a queue, topic or bucket it is told about is one it may use, and a function that connects to the database is in the security group the database admits. Every API method, schedule, queue and topic that is to lead to a function leads to one it may invoke.",
    quantifier: Q(["inputs", "configurations"], "for every application of the repository, every function of it and every invocation"),
    why: "Applications have no tests of the deployed combination: names of handlers, settings and grants are strings written in one file and relied on in another.",
    files: ["tools/esbuild/src/common.ts", ...["marine/aton-faults", "marine/marinecam", "marine/portactivity", "marine/voyage-plan-gateway", "other/status", "rail/rami", "rail/yearly-plans", "road/counting-site", "road/data-upload", "road/lam-history", "road/maintenance-tracking", "road/variable-signs"].map((d) => d + "/src")],
    mechanism: [["the build", "tools/esbuild/src/common.ts"], ["settings and permissions", "lib/digitraffic-common/src/aws/infra/stack/monitoredfunction.ts"]],
    technique: "runtime monitoring: each application is built by the repository's build configuration and synthesized; every deployed handler is loaded and invoked with the template's environment under hostile events while reads of missing settings, AWS requests and database connections are recorded and checked against the template's permissions and networks",
    note: "Packages that are not installed here (and what only they reach) are replaced by ones that do nothing; Python and applications without functions are left out.",
  },
  {
    id: "P27",
    title: "Uploaded traffic documents are stored whole, in order, and published",
    statement:
      "A document that is uploaded and answered with OK, or taken off the traffic message topic, is kept and handled: it ends marked as processed with every sign, controller or situation of it stored as sent, or marked as failed when it could not be stored whole, and handling always ends. Of each device, version and kind what stays is the newest document, and every processed situation is announced and its newest version published once per announcement as a well-formed payload on the topic of its kind; a failure of the database, queue, secret or broker loses nothing that was accepted. Documents are cleaned away after a week, not before.",
    quantifier: Q(["inputs", "histories", "faults"], "for every sequence of uploads and topic messages, their content, delivery and every fault schedule"),
    why: "Tests handle one sound document each; order between documents that wait together, partial failures and what a queue does after one need whole histories.",
    files: ["lambda/upload-datex2/upload-datex2.ts", "lambda/handle-rtti/handle-rtti.ts", "lambda/handle-new-messages/handle-new-messages.ts", "lambda/send-mqtt/send-mqtt.ts", "service/variable-signs.ts", "service/rtti.ts", "service/datex2-update.ts", "service/mqtt-sending-service.ts", "service/vs-datex2-223-parser.ts", "service/vs-datex2-35-parser.ts", "dao/data.ts", "data-upload-stack.ts"].map((f) => "road/data-upload/src/" + f),
    mechanism: [["handling", "road/data-upload/src/service/variable-signs.ts"], ["publishing", "road/data-upload/src/service/mqtt-sending-service.ts"], ["wiring", "road/data-upload/src/data-upload-stack.ts"]],
    technique: "runtime monitoring: histories of uploads and topic messages run through the real handlers over queues simulated from the synthesized template and a database that executes their SQL, with slow connections and injected faults; an offline checker accounts for every document, part and publication",
    note: "Queue semantics are modelled, xml2js and the MQTT client are stand-ins; invocations of the handler do not overlap, a device is in one document of a request.",
  },
  {
    id: "P28",
    title: "Variable signs are published exactly as stored; images show their text",
    statement:
      "Every public variable sign publication is well-formed XML of its kind that contains exactly the stored data of that Datex version and kind of the devices in use, ordered by device and unchanged but for a missing namespace prefix of old records, without the messages of the test devices on the test nights, and its publication time is that of the latest change. What the integration API accepts (situations, sign states, device metadata) is stored whole as sent, with devices missing from the metadata taken out of use and returning ones back in; what it does not accept changes nothing. A sign image shows exactly the symbols of its text side by side, and a text no sign can show is refused as a bad request.",
    quantifier: Q(["inputs", "histories", "faults"], "for every sequence of documents, metadata, sign states and queries, their content, every database fault and every text asked as an image"),
    why: "Tests read single stored documents; texts that look like template patterns, devices that come and go, and partial failures need whole histories.",
    files: ["service/variable-signs.ts", "service/filtering-service.ts", "service/datex2-update-service.ts", "service/json-update-service.ts", "service/text-converter.ts", "service/textSymbol.ts", "db/datex2.ts", "db/data.ts", "db/metadata.ts", "public-api.ts", "integration-api.ts"].map((f) => "road/variable-signs/src/" + f),
    mechanism: [["publications", "road/variable-signs/src/service/variable-signs.ts"], ["updates", "road/variable-signs/src/service/json-update-service.ts"], ["images", "road/variable-signs/src/service/text-converter.ts"]],
    technique: "runtime monitoring: requests are routed by the synthesized APIs through their mapping templates to the real handlers over a database that executes their SQL, with injected faults; an online model of devices and documents checks every answer, and image symbols are compared across all images seen",
    note: "The database is SQLite with translated statements, a stand-in parses XML for the filtering; the order of attributes in uploaded situations is the usual one.",
  },
  {
    id: "P29",
    title: "Camera images are kept whole and given only to those entitled",
    statement:
      "Each run of the update asks every camera of the group, and no other, for its image through a session of its own that it ends; an image that a camera gave is stored unchanged, in private, as that camera's, whatever happens to the other cameras, and exactly the cameras whose image was stored are marked as updated at that time, while for the others the earlier image stays. Of the restricted API every method requires a key or a user: a user with a valid password, however the request is cased, gets the images and metadata of the cameras of the user's groups and nothing of other groups, again and again, and anyone else is refused; a key gives the images and metadata of the Saimaa cameras. Every request is answered, a failing database never looking like an answer.",
    quantifier: Q(["inputs", "histories", "faults"], "for every set of cameras, groups and users, every failure of the camera server, the image store and the database, and every sequence of requests, also within the lifetime of cached policies"),
    why: "The repository tests only the SQL of this application; entitlement is decided by an authorizer, a cached policy, a mapping template and a query together, and partial failures need a server that fails.",
    files: ["service/image-fetcher.ts", "service/session.ts", "service/command.ts", "service/image-store.ts", "service/metadata.ts", "db/metadata.ts", "lambda/authorizer/authorizer.ts", "lambda/authorizer/cognito_backend.ts", "lambda/list-cameras/list-cameras.ts", "lambda/get-metadata/get-metadata.ts", "lambda/update-images/update-images.ts", "private-api.ts"].map((f) => "marine/marinecam/src/" + f),
    mechanism: [["images", "marine/marinecam/src/service/image-fetcher.ts"], ["protocol", "marine/marinecam/src/service/session.ts"], ["entitlement", "marine/marinecam/src/lambda/authorizer/authorizer.ts"]],
    technique: "runtime monitoring: the real update function runs against a stand-in camera server that speaks the video protocol with injected faults, and requests go through the synthesized API, its authorizer with the platform's policy cache, mapping templates and roles to the real handlers; online oracles compare images, marks, listings and refusals with the model",
    note: "undici, p-limit and Cognito are stand-ins (not installed); paths are plain names, since how the platform decodes encoded paths is its own; a failure to close a stream may cost that camera's image.",
  },
  {
    id: "P30",
    title: "Port activity sources yield exactly the timestamps they gave, each run",
    statement:
      "Each run of a port activity source puts on the queue exactly the timestamps the source gave: of pilotages that are new or changed and have a port call, of the schedules of the ports known, of the usable Awake.AI predictions of the ships and ports asked for, and of observed arrivals at and departures from berths, each with the event type, time, ship, port and source that the source defined. The pilotages kept follow Pilotweb's list, and the timestamps of pilotages that disappeared from it, and no others, are removed with them. A run that fails changes nothing and sends nothing, the next one makes up for it, and a run that is cut short resumes where the source allows.",
    quantifier: Q(["inputs", "histories", "faults"], "for every sequence of answers of each source, whatever their content and division into chunks, and every failure of the sources, the secrets and the database"),
    why: "Tests give each source one canned answer; what is sent depends on what earlier runs saw, and chunks, expiring tokens and half-failed runs occur only in production.",
    files: ["service/pilotweb.ts", "service/schedules.ts", "service/awake-ai-eta-ship.ts", "service/awake-ai-eta-port.ts", "service/awake-ai-etd-port.ts", "service/awake-ai-atx.ts", "service/awake-ai-etx-helper.ts", "service/location-converter.ts", "service/queue-service.ts", "api/pilotweb.ts", "api/schedules.ts", "api/awake-ai-ship.ts", "api/awake-ai-port.ts", "api/awake-ai-atx.ts", "api/oauth-token-api.ts", "dao/pilotages.ts", "internal-lambdas-stack.ts"].map((f) => "marine/portactivity/src/" + f),
    mechanism: [["pilotages", "marine/portactivity/src/service/pilotweb.ts"], ["predictions", "marine/portactivity/src/service/awake-ai-etx-helper.ts"], ["observations", "marine/portactivity/src/service/awake-ai-atx.ts"]],
    technique: "runtime monitoring: the deployed functions run one after another against stand-ins of their sources that change between runs, split and cut their answers and fail; the messages on the queue and the tables are compared after each run with a model of what the source said",
    note: "HTTPS, the websocket and SSM clients are stand-ins; sending to the queue does not fail here, and SQL is executed by SQLite after translation.",
  },
  {
    id: "P31",
    title: "Passenger information is shown as told, and nothing told is lost",
    statement:
      "Every message and stop monitoring that the source system puts in is either applied in full or kept, with its content, as a dead letter in the bucket; one that could not be queued is not acknowledged. The public API shows of each message its newest version that is not deleted, with the texts, stations, validity and delivery rules it was told with, and exactly those messages that a query asks for; a query that makes no sense is refused and one that fails does not look like an empty answer. What is known of unknown delays and tracks of a train follows its latest stop monitoring, all of it or nothing, with one history row for each change. What is older than a day is cleaned away and nothing else, and no failure leaves a connection or a transaction behind.",
    quantifier: Q(["inputs", "histories", "faults", "schedules"], "for every history of messages, versions, stop monitoring and queries, and every failure and deadlock of the database, the queues and the bucket in between"),
    why: "Tests run single messages against a healthy database; deadlocks, retries, redelivery and dead letters occur only under load.",
    files: ["lambda/upload-rosm-message/upload-rosm-message.ts", "lambda/process-rosm-queue/process-rosm-queue.ts", "lambda/process-sm-queue/process-sm-queue.ts", "lambda/process-udot-queue/process-udot-queue.ts", "lambda/process-dlq/process-dlq.ts", "lambda/get-active-messages/get-active-messages.ts", "lambda/get-messages-updated-after/get-messages-updated-after.ts", "lambda/delete-old-data/delete-old-data.ts", "service/get-message.ts", "service/process-rosm-message.ts", "service/process-sm-message.ts", "service/process-udot-message.ts", "service/sqs-service.ts", "service/validate-message.ts", "dao/message.ts", "dao/udot.ts", "dao/stop_monitoring_message.ts", "dao/time_table_row.ts", "util/database.ts", "util/s3.ts", "rami-stack.ts", "internal-lambdas.ts", "integration-api.ts", "public-api.ts"].map((f) => "rail/rami/src/" + f),
    mechanism: [["messages", "rail/rami/src/dao/message.ts"], ["unknown delays and tracks", "rail/rami/src/service/process-udot-message.ts"], ["dead letters", "rail/rami/src/lambda/process-dlq/process-dlq.ts"]],
    technique: "runtime monitoring: the functions of the synthesized stack run on its queues, against a MySQL stand-in that deadlocks, times out and drops connections; the tables, the public API and the bucket are compared with what was put in",
    note: "MySQL is a stand-in on SQLite that knows the statements used; upper and lower case are distinguished and GROUP_CONCAT is not cut.",
  },
  {
    id: "P32",
    title: "Winter navigation follows its source and is published as it is",
    statement:
      "After an update run that reached the source and the database, the public API publishes the source's data as it was at the version of the run: locations with their restrictions and suspensions, dirways along their points in order, and vessels with the activities and planned assistances that fall in the asked time (for the list of vessels by default from a week ago), each seen from the vessel's side or from the icebreaker's. What is deleted at the source disappears, also when asked by number or by locode, and what is put back appears again. No failure of the source or the database and no change in the middle of a run loses a change for good: the next sound run brings it in; a run that could not be made or stored is noticed. Data is told to have been checked exactly when it was. A query that makes no sense is refused, one that fails does not look like an answer, and an answer too large to be passed on is refused.",
    quantifier: Q(["inputs", "histories", "faults"], "for every history of changes, deletions and returns at the source, runs, queries, and failures of the source and the database in between"),
    why: "Tests save single objects to an empty database and ask for them; partial runs, returns, reused numbers and missing identifiers do not occur in them.",
    files: ["lambda/update-data/update-data.ts", "lambda/get-locations/get-locations.ts", "lambda/get-vessels/get-vessels.ts", "lambda/get-dirways/get-dirways.ts", "service/data-updater.ts", "service/location-service.ts", "service/vessel-service.ts", "service/dirway-service.ts", "api/ibnet-api.ts", "db/deleted.ts", "db/data-version.ts", "db/locations.ts", "db/restrictions.ts", "db/vessels.ts", "db/activities.ts", "db/sources.ts", "db/queues.ts", "db/port-suspensions.ts", "db/dirways.ts", "keys.ts", "public-api.ts", "winter-navigation-stack.ts"].map((f) => "marine/winter-navigation/src/" + f),
    mechanism: [["update by versions", "marine/winter-navigation/src/service/data-updater.ts"], ["vessels in a time", "marine/winter-navigation/src/db/vessels.ts"], ["sides of an activity", "marine/winter-navigation/src/service/vessel-service.ts"]],
    technique: "runtime monitoring: the functions of the synthesized stack run against a versioned stand-in source that changes during the runs and a database that executes the real SQL; the published answers are compared with the source's state at the version of the run",
    note: "SQL is executed by SQLite after translation.",
  },
  {
    id: "P33",
    title: "Port visits and faults of aids to navigation follow their sources",
    statement:
      "Update runs ask the source for the visits of every day from yesterday to a hundred days ahead, one day after another, keep each day's visits as a whole and each visit as its source told it last with the time it was told, and mark the update as made only when all days were fetched; a failing day stops the run and leaves what was told before it kept. Faults of each configured domain replace what was told of them before, all of a source or none of them; a domain whose source fails does not stop the other. The public API gives every visit told (whose ETA is within three months) and every fault told that is not left out by its state, exactly once and as told: visits by time (any of ETA, ETD, ATA and ATD from the first moment and before the second), port, part of the vessel's name in any case, IMO number and status, in the asked order or by arrival; one visit by its id; faults in the asked language (English by default) without those fixed longer ago than asked (a week by default), with the time of the latest check. Finnish local times mean the right instants. Queries that mean nothing are refused with 400, and a failing database is answered with an error and not with an empty list.",
    quantifier: Q(["inputs", "histories", "faults"], "for every history of the sources, runs, queries, and failures of the sources and the database in between"),
    why: "Tests save a few objects and ask for them; changing sources, runs that fail half way and combinations of filters do not occur in them.",
    files: ["port-call/src/lambda/update-visits/update-visits.ts", "port-call/src/lambda/get-visits/get-visits.ts", "port-call/src/lambda/get-visit/get-visit.ts", "port-call/src/service/visit-service.ts", "port-call/src/api/nemo-api.ts", "port-call/src/db/visits.ts", "aton-faults/src/lambda/update-faults/update-faults.ts", "aton-faults/src/lambda/get-faults/get-faults.ts", "aton-faults/src/service/update-faults.ts", "aton-faults/src/service/faults.ts", "aton-faults/src/api/faults.ts", "aton-faults/src/db/faults.ts"].map((f) => "marine/" + f),
    mechanism: [["visits day by day", "marine/port-call/src/service/visit-service.ts"], ["visits asked", "marine/port-call/src/db/visits.ts"], ["faults of a source", "marine/aton-faults/src/service/update-faults.ts"], ["faults asked", "marine/aton-faults/src/db/faults.ts"]],
    technique: "runtime monitoring: the functions of the synthesized stacks run against changing stand-in sources and a database that executes the real SQL, with failures in between; the published answers are compared with what the sources told",
    note: "SQL is executed by SQLite after translation.",
  },
  {
    id: "P34",
    title: "Fairway lights brighten for moving ships; sea states are kept as reported",
    statement:
      "Every minute, the lights of each area in which a ship was moving (faster than 2 knots, by a location of the last two minutes) are brightened for the area's duration, with the visibility there when it is known (zero included), for one and always the same of its ships, unless they stay bright for a minute or more yet; nothing is sent for other areas. A request that fails is tried three times in all, never again once it succeeded; that and until when the lights are bright is recorded exactly when they were set, and an area that fails does not stop the others. Each sound report of the sea state that is sent with the key is kept exactly as it was told, in the order given, and counted as saved; each other report is counted as an error and hinders none of the sound ones. Of every site the newest kept report, and it alone, is the latest, also when storing fails half way. The update is marked exactly when something was saved, a message without reports is refused with 400, a failure of the whole is told with 500, and every answer is JSON.",
    quantifier: Q(["inputs", "histories", "faults"], "for every history of ships, minutes and reports, and failures of the services and the database in between"),
    why: "Tests handle single areas and reports on an empty database; what goes on between minutes, and failures at some step, do not occur in them.",
    files: ["shiplight/src/lambda/update-lights/update-lights.ts", "shiplight/src/service/arealights.ts", "shiplight/src/service/areatraffic.ts", "shiplight/src/service/areavisibility.ts", "shiplight/src/api/arealights.ts", "shiplight/src/api/areavisibility.ts", "shiplight/src/db/areatraffic.ts", "sea-state-estimate/src/lambda/update-sse-data/update-sse-data.ts", "sea-state-estimate/src/service/sse-update-service.ts", "sea-state-estimate/src/db/sse-db.ts", "sea-state-estimate/src/integration-api.ts"].map((f) => "marine/" + f),
    mechanism: [["areas with moving ships", "marine/shiplight/src/db/areatraffic.ts"], ["lights are set", "marine/shiplight/src/lambda/update-lights/update-lights.ts"], ["reports are saved", "marine/sea-state-estimate/src/service/sse-update-service.ts"]],
    technique: "runtime monitoring: the functions of the synthesized stacks run minute by minute, and report by report, against stand-in services and a database that executes the real SQL, with failures in between; requests sent and rows kept are compared with a model of the ships and reports",
    note: "SQL is executed by SQLite after translation; areas are polygons whose edges no ship touches.",
  },
  {
    id: "P35",
    title: "Counts of passers-by are kept once and published as told",
    statement:
      "Counting sites of the domain are kept as the source lists them: a listed site with its properties, a site no longer listed with the time it was first missed (until it is listed again), sites of other domains untouched, and nothing changed when the list could not be fetched. Counts of each site that is not removed are asked a day at a time, from the minute after the last kept count (or from ten days ago), only when that is more than a day ago, and every count the source gives is kept exactly once together with how far the counts reach; a site that fails keeps what it had, continues there later and does not disturb the others, and a site without counts for more than a week moves on by a day. The update is marked as made only when every site succeeded. The API, which asks for a key, gives the sites (by id and domain, 404 for an unknown id), the counts of a UTC day (yesterday by default) in the order of site, mode, direction and time, and a site's counts of a month as CSV, each by site and travel mode, with the time of the latest change; queries that mean nothing are refused with 400 and a failing database is answered with an error.",
    quantifier: Q(["inputs", "histories", "faults"], "for every history of sites and counts, updates and queries, and failures of the source and the database in between"),
    why: "Tests make one update of an empty database; neither repeated updates nor sites that fail occur in them.",
    files: ["service/update-service.ts", "service/api-service.ts", "dao/data.ts", "dao/site.ts", "api/v2/eco-counter.ts", "lambda/update-data/update-data.ts", "lambda/update-metadata/update-metadata.ts", "lambda/get-sites/get-sites.ts", "lambda/get-values/get-values.ts", "lambda/get-values-csv/get-values-csv.ts", "public-api-v2.ts"].map((f) => "road/counting-site/src/" + f),
    mechanism: [["sites and counts are followed", "road/counting-site/src/service/update-service.ts"], ["days and months", "road/counting-site/src/dao/data.ts"], ["windows at the source", "road/counting-site/src/api/v2/eco-counter.ts"]],
    technique: "runtime monitoring: the functions of the synthesized stack run against a stand-in source with gaps and failures and a database that executes the real SQL; rows kept and answers given are compared with what the source counted",
    note: "SQL is executed by SQLite after translation; the query builder and the CSV writer are stand-ins (they are not installed). The change to and from summer time is not met.",
  },
  {
    id: "P36",
    title: "Monitoring follows the published interfaces and breaks of maintenance",
    statement:
      "Every published interface that can be called without knowing anything (GET, without path parameters, not beta, required parameters having defaults, which are then sent) and is not excluded, and every endpoint configured in addition, gets exactly one check at the outside monitor, created with the configured target, method, data, limits, user header and contacts, over any sequence of runs, also when runs fail in between; existing checks of an app that differ in limits, method, target, user header or contacts (beta only internal ones) are corrected, those that do not differ and those of others are left alone, and nothing is changed when an interface cannot be read. While a maintenance break is active (from one minute before its time on) enabled checks are disabled, and then the status page and Slack are told; when none is active, disabled checks are enabled again, one by one where needed, and Slack is told how many and which remain disabled; otherwise nothing is changed or told. The comparison tells Slack exactly the checks without a system on the status page (not beta), the systems without a check and, outside breaks, those whose states differ, matched by app and path, and says nothing when there are none. A run that fails ends as failed.",
    quantifier: Q(["inputs", "histories", "faults"], "for every published interface, state of the monitor and of the status page, every sequence of runs and every refused request in between"),
    why: "Tests replace the monitor's client by stubs and make one call each; what a sequence of runs leaves at the monitor is not seen.",
    files: ["service/status-service.ts", "service/maintenance-service.ts", "service/utils.ts", "api/nodeping-api.ts", "api/cstate-statuspage-api.ts", "api/digitraffic-api.ts", "internal-lambdas.ts", "lambda/update-status/lambda-update-status.ts", "lambda/handle-maintenance/lambda-handle-maintenance.ts", "lambda/check-component-states/lambda-check-component-states.ts"].map((f) => "other/status/src/" + f),
    mechanism: [["checks are created and corrected", "other/status/src/service/status-service.ts"], ["requests to the monitor", "other/status/src/api/nodeping-api.ts"], ["breaks", "other/status/src/service/maintenance-service.ts"], ["what can be called", "other/status/src/api/digitraffic-api.ts"]],
    technique: "runtime monitoring: the functions of the synthesized stack run against stand-ins of the monitor, the status page, GitHub and Slack that keep state; every request and the state left are compared with what the documents and the state before require",
    note: "One defect is recorded and not repaired: when telling the status page of a break fails, it is not tried again, as checks are disabled by then.",
  },
  {
    id: "P37",
    title: "Each month's key figures are counted once and shown as counted",
    statement:
      "The scheduled runs of a month together store, for all services together, for each service and for each of its published and added endpoints, each of the nine figures (requests, those answered 200, bytes, different addresses, and the most frequent referers, users, agents and addresses, users also by bytes) exactly once, with the value the access log gives for the month before: from its first moment and before the next month's first moment, of the service's account, without what is left out of statistics, of the integration hosts or is not an access. That holds over any sequence of runs: what could not be asked is tried again within the run; a figure that could not be collected or stored hinders no other collected one for good, is noticed, and is stored by a later run, while what is stored already is neither changed nor stored again but put aside as a duplicate; no run hangs or leaves its connection open. The pages show exactly the stored figures: one page of every endpoint, linked from the overview with the requests of its latest month (or none if they are not known), charts with one point a month, endpoints with more than 50000 requests on the overview, whatever names clients use, which never run as part of a page.",
    quantifier: Q(["inputs", "histories", "faults"], "for every log, set of published endpoints, sequence of months and runs, and failures of OpenSearch, the published interfaces and the database in between"),
    why: "Tests check the text of single queries and runs on an empty store; what queries count, and what repeated and half failed runs leave, they do not see.",
    files: ["lambda/collect-os-key-figures.ts", "lambda/handler-config.ts", "lambda/create-visualizations.ts", "domain/services/metric-collection-service.ts", "domain/services/endpoint-discovery-service.ts", "domain/types/time-period.ts", "adapters/driven/mysql/mysql-metric-store.ts", "adapters/driven/opensearch/metric-query.ts", "adapters/driven/opensearch/opensearch-metric-source.ts", "adapters/driven/opensearch/retrying-metric-source.ts", "api/opensearch.ts", "os-key-figures-stack.ts"].map((f) => "other/os-key-figures/src/" + f),
    mechanism: [["what is counted", "other/os-key-figures/src/adapters/driven/opensearch/metric-query.ts"], ["figures are stored", "other/os-key-figures/src/adapters/driven/mysql/mysql-metric-store.ts"], ["what runs when", "other/os-key-figures/src/os-key-figures-stack.ts"], ["pages", "other/os-key-figures/src/lambda/create-visualizations.ts"]],
    technique: "runtime monitoring: the functions run as the synthesized schedule says, month by month, against an OpenSearch stand-in that evaluates their queries on a log and a database that executes the real SQL, with failures in between; rows stored and charts drawn by the pages' own scripts are compared with the log",
    note: "SQL is executed by SQLite after translation; how OpenSearch splits a path into words is modelled.",
  },
  {
    id: "P38",
    title: "The configured log monitors are what watches the log, and alert when they should",
    statement:
      "A deployment carries the configured monitors to the function that installs them, and makes it run. A run that succeeds leaves exactly the configured monitors in OpenSearch, each once and each as configured by this deployment, whatever number of monitors was there before; a run that leaves anything else (one missing, an old one beside or instead of its replacement, one nobody configured) fails, whichever of its requests were refused, broken off, answered with something else or lost. How it went is told to the channel meant for it, success only after it is true; no run hangs, and a later undisturbed run puts things right. An installed monitor runs at the configured time (UTC) and looks at exactly the lines of its indices, its environment and its time window (both ends included, up to the delay if there is one) that meet every required part of its description and none of the excluded ones. It alerts exactly when it should: when there are more lines than its threshold, when their number or the megabytes of the named field are outside the inclusive range, when there are more buckets (after their filter, and whatever else is aggregated) than allowed, or always when it tells a status; and the alert goes once to each destination, is repeated no sooner than configured, and tells the number it was raised for, what is allowed, the newest line when the message is made of it, and the link of the instructions named by the monitor. Building a monitor leaves a configuration shared by several as it was.",
    quantifier: Q(["inputs", "histories", "faults"], "for every set of monitors put together by the builder, history of deployments, earlier monitors and failures of OpenSearch, and log"),
    why: "The application has no tests of its monitors; an update that half fails, and what conditions mean to a log, only show when they are carried out.",
    files: ["lambda/update-os-monitors.ts", "api/opensearch.ts", "monitor-stack.ts", "monitor/monitor.ts", "monitor/monitor-builder.ts", "monitor/triggers.ts", "monitor/aggregates.ts", "monitor/slack.ts", "monitor/queries.ts"].map((f) => "other/opensearch-monitors/src/" + f),
    mechanism: [["monitors are installed", "other/opensearch-monitors/src/api/opensearch.ts"], ["a monitor is built", "other/opensearch-monitors/src/monitor/monitor-builder.ts"], ["when it alerts", "other/opensearch-monitors/src/monitor/triggers.ts"], ["what is deployed", "other/opensearch-monitors/src/monitor-stack.ts"]],
    technique: "runtime monitoring: monitors put together at random by the real builder are deployed through the synthesized stack by the real function to an OpenSearch stand-in that keeps them, with failures of its requests; the installed ones are then carried out on random logs (queries, aggregations, scripts, conditions, messages) and compared with what they were described as",
    note: "Painless scripts and mustache templates are executed as far as the application uses them; analysis of texts is splitting into lower-case words.",
  },
  {
    id: "P39",
    title: "Gateways pass on what was asked and what was received, or tell that they cannot",
    statement:
      "Schedules of vessels are told only with the API key and exactly the agreed token; the source is then asked once, at the place of the asked direction and kind, with exactly the given parameters and values whatever characters they contain, and never with the token; an unknown direction is refused without asking. What the source answers is told unchanged; an error of the source, or an answer broken off, never looks like schedules. A report of a ship is acknowledged with the time of the acknowledgement in whole seconds, and the formality is told as it is. Scheduled updates of track work plans and of traffic measurement stations ask each source with its key at the configured place and store each answer in its own bucket and file: the plans as the source gave them, the stations character by character. What was stored stays when a source fails, answers something else than success, is broken off, or gives plans that are not as agreed; and an update succeeds exactly when everything was stored, otherwise it fails and tells why.",
    quantifier: Q(["inputs", "histories", "faults"], "for every history of requests with any values, answers of sources and their failures, and failures of the store"),
    why: "The gateways have hardly any tests: values with special characters, sources that fail in various ways, and what is then stored are only seen by running them.",
    files: ["marine/voyage-plan-gateway/src/lambda/get-schedules/lambda-get-schedules.ts", "marine/voyage-plan-gateway/src/public-api.ts", "marine/gofrep/src/integration-api.ts", "marine/gofrep/src/service/epcmessage.ts", "rail/yearly-plans/src/lambda/update-plans/update-plans.ts", "rail/yearly-plans/src/service/yearly-plans-service.ts", "rail/yearly-plans/src/util/s3-util.ts", "road/lam-history/src/lambda/update-lam-stations/update-lam-stations.ts", "road/lam-history/src/service/update.ts"],
    mechanism: [["schedules are asked", "marine/voyage-plan-gateway/src/lambda/get-schedules/lambda-get-schedules.ts"], ["a report is acknowledged", "marine/gofrep/src/service/epcmessage.ts"], ["plans are updated", "rail/yearly-plans/src/lambda/update-plans/update-plans.ts"], ["stations are updated", "road/lam-history/src/service/update.ts"]],
    technique: "runtime monitoring: the synthesized stacks decide which functions run with which settings; they are run against loopback sources and a bucket that fail at random, and every request, answer and stored file is compared with what was asked and given",
    note: "Plans are put together from the schema of the application.",
  },
];
/** properties that are listed but not claimed: {property, reason} */
export const NOT_APPLICABLE = [];
