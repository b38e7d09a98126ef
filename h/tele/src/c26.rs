//! The event queue against a first-in-first-out list.
use enumflags2::BitFlags;
use event_queue::*;
use grafbase_telemetry::graphql::GraphqlResponseStatus;
use std::{
    collections::VecDeque,
    sync::{Arc, Mutex, mpsc},
    time::{Duration, Instant},
};
use vmc::{Case, Check};

const TYPES: [EventFilterType; 4] =
    [EventFilterType::Operation, EventFilterType::SubgraphRequest, EventFilterType::HttpRequest, EventFilterType::Extension];

/// The filters: none, all, and every set of types. Also the types they keep.
fn filter(c: &mut Case) -> (Option<EventFilter>, [bool; 4]) {
    match c.choose(18) {
        0 => (None, [false; 4]),
        1 => (Some(EventFilter::All), [true; 4]),
        n => {
            let set = n - 2;
            let keeps: [bool; 4] = std::array::from_fn(|i| set >> i & 1 == 1);
            let flags: BitFlags<EventFilterType> = (0..4).filter(|i| keeps[*i]).map(|i| TYPES[i]).collect();
            (Some(EventFilter::Types(flags)), keeps)
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Operation,
    Subgraph,
    Http,
    Extension,
    Failing,
    Pop,
}

const OPS: [Op; 6] = [Op::Operation, Op::Subgraph, Op::Http, Op::Extension, Op::Failing, Op::Pop];

impl Op {
    fn kind(self) -> Option<usize> {
        match self {
            Op::Operation => Some(0),
            Op::Subgraph => Some(1),
            Op::Http => Some(2),
            Op::Extension | Op::Failing => Some(3),
            Op::Pop => None,
        }
    }
}

/// The kind and the label the event carries.
fn read(event: &Event) -> (usize, String) {
    match event {
        Event::Operation(e) => (0, e.name.clone().unwrap_or_default()),
        Event::Subgraph(e) => (1, e.subgraph_name.clone()),
        Event::Http(e) => (2, e.url.clone()),
        Event::Extension(e) => (3, e.event_name.clone()),
    }
}

/// Pushes an event carrying the label, calling `inside` while its payload is made.
fn push(queue: &EventQueue, op: Op, label: &str, inside: &dyn Fn()) -> Result<(), String> {
    match op {
        Op::Operation => {
            let mut builder = ExecutedOperation::builder_with_default();
            builder.name(label);
            queue.push_operation(builder);
            Ok(())
        }
        Op::Subgraph => {
            queue.push_subgraph_request(ExecutedSubgraphRequest::builder(label, http::Method::GET, "u"));
            Ok(())
        }
        Op::Http => {
            queue.push_http_request(ExecutedHttpRequest::builder(label));
            Ok(())
        }
        Op::Extension => queue.push_extension_event(|| {
            inside();
            Ok(ExtensionEvent { extension_name: "x".into(), event_name: label.into(), data: label.as_bytes().to_vec() })
        }),
        Op::Failing => queue.push_extension_event(|| {
            inside();
            Err(label.to_string())
        }),
        Op::Pop => unreachable!(),
    }
}

fn histories(c: &mut Case, depth: usize) {
    let (filter, keeps) = filter(c);
    let queue = if filter.is_none() && c.flag() { EventQueue::default() } else { EventQueue::new(filter) };
    let mut model: VecDeque<(usize, String)> = VecDeque::new();
    let n = c.choose(depth) + 1;
    let ops: Vec<Op> = (0..n).map(|_| *c.pick(&OPS)).collect();
    c.note(|| format!("{filter:?} {ops:?}"));
    c.outcome(&(keeps, ops.last().copied()));
    for (i, op) in ops.iter().enumerate() {
        c.steps(1);
        let label = format!("e{i}");
        match op.kind() {
            None => {
                let got = queue.pop().map(|e| read(&e));
                c.check_eq("popped", &model.pop_front(), &got, &format!("pop number {i}"));
            }
            Some(kind) => {
                let built = std::cell::Cell::new(0);
                let result = push(&queue, *op, &label, &|| built.set(built.get() + 1));
                if kind == 3 {
                    c.check_eq("payload", &usize::from(keeps[3]), &built.get(), "how often the payload is made");
                }
                let fails = *op == Op::Failing && keeps[3];
                let expected = if fails { Err(label.clone()) } else { Ok(()) };
                c.check_eq("result", &expected, &result, &format!("the result of {op:?}"));
                if keeps[kind] && !fails {
                    model.push_back((kind, label));
                }
            }
        }
    }
    // What is left.
    while let Some(event) = queue.pop() {
        if let Event::Extension(e) = &event {
            c.check(e.data == e.event_name.as_bytes(), "data", || format!("{e:?}"));
        }
        let got = read(&event);
        c.check_eq("left", &model.pop_front(), &Some(got), "what is left");
    }
    c.check(model.is_empty(), "lost", || format!("{model:?} are lost"));
    c.validated(1);
}

/// The operations of a few threads in every order. Making the payload of an extension event is a step of its own.
fn schedules(c: &mut Case, lengths: &[usize], ops: &[Op], all: bool) {
    let threads = lengths.len();
    let keep_extension = all || c.flag();
    let filter = if keep_extension {
        EventFilter::All
    } else {
        EventFilter::Types(EventFilterType::Operation | EventFilterType::HttpRequest)
    };
    let queue = EventQueue::new(Some(filter));
    let programs: Vec<Vec<Op>> =
        lengths.iter().map(|n| (0..*n).map(|_| *c.pick(ops)).collect()).collect();
    // Threads are alike.
    if programs.windows(2).any(|w| w[0].len() == w[1].len() && format!("{:?}", w[0]) > format!("{:?}", w[1])) {
        c.skip();
    }
    type Log = Vec<Result<Option<(usize, String)>, ()>>;
    let popped: Vec<Mutex<Log>> = programs.iter().map(|_| Default::default()).collect();
    let mut schedule = Vec::new();
    let mut model: VecDeque<(usize, String)> = VecDeque::new();
    let mut expected: Vec<Vec<Option<(usize, String)>>> = vec![Vec::new(); threads];
    std::thread::scope(|scope| {
        let mut gates = Vec::new();
        for (t, program) in programs.iter().enumerate() {
            let (go, wait) = mpsc::channel::<()>();
            let (tell, done) = mpsc::channel::<bool>();
            let (queue, popped) = (&queue, &popped);
            gates.push((go, done));
            scope.spawn(move || {
                if wait.recv().is_err() {
                    return;
                }
                for (i, op) in program.iter().enumerate() {
                    let last = i + 1 == program.len();
                    match op {
                        Op::Pop => {
                            let got = queue.pop().map(|e| read(&e));
                            popped[t].lock().unwrap().push(Ok(got));
                        }
                        op => {
                            let _ = push(queue, *op, &format!("t{t}e{i}"), &|| {
                                // Let others run while the payload is made.
                                tell.send(false).unwrap();
                                let _ = wait.recv();
                            });
                        }
                    }
                    tell.send(last).unwrap();
                    if !last && wait.recv().is_err() {
                        return;
                    }
                }
            });
        }
        // Where each thread is: the operation, and whether its payload is being made.
        let mut at: Vec<(usize, bool)> = vec![(0, false); threads];
        loop {
            let runnable: Vec<usize> = (0..threads).filter(|t| at[*t].0 < lengths[*t]).collect();
            if runnable.is_empty() {
                break;
            }
            let t = *c.pick(&runnable);
            schedule.push(t);
            c.steps(1);
            gates[t].0.send(()).unwrap();
            gates[t].1.recv().unwrap();
            let (i, making) = at[t];
            let op = programs[t][i];
            let two_steps = matches!(op, Op::Extension | Op::Failing) && keep_extension;
            if two_steps && !making {
                at[t] = (i, true);
                continue;
            }
            at[t] = (i + 1, false);
            match op {
                Op::Pop => expected[t].push(model.pop_front()),
                Op::Failing => {}
                Op::Extension if !keep_extension => {}
                op => model.push_back((op.kind().unwrap(), format!("t{t}e{i}"))),
            }
        }
        drop(gates);
    });
    c.note(|| format!("{programs:?} in the order {schedule:?}"));
    c.outcome(&expected);
    for t in 0..threads {
        let got: Vec<Option<(usize, String)>> = popped[t].lock().unwrap().iter().map(|g| g.clone().unwrap()).collect();
        c.check_eq("popped-concurrently", &expected[t], &got, &format!("what thread {t} got"));
    }
    let mut left = VecDeque::new();
    while let Some(event) = queue.pop() {
        left.push_back(read(&event));
    }
    c.check_eq("left-concurrently", &model, &left, "what is left");
    c.validated(1);
}

const STATUSES: [GraphqlResponseStatus; 5] = [
    GraphqlResponseStatus::Success,
    GraphqlResponseStatus::FieldError { count: 3, data_is_null: false },
    GraphqlResponseStatus::FieldError { count: 1, data_is_null: true },
    GraphqlResponseStatus::RequestError { count: 2 },
    GraphqlResponseStatus::RefusedRequest,
];

pub fn run(check: &Check) {
    check.assume("The operations of the queue below (crossbeam's SegQueue) are atomic: schedules switch between calls and while a payload is made.");
    check.assume("Durations are read from the real clock and compared with bounds measured around them.");
    let depth = if check.thorough() { 7 } else { 6 };
    check.space("histories", |c| histories(c, depth));

    let few = [Op::Operation, Op::Extension, Op::Failing, Op::Pop];
    let fewer = [Op::Operation, Op::Extension, Op::Pop];
    check.space("schedules of two threads", |c| schedules(c, &[2, 2], &few, false));
    check.space("longer schedules of two threads", |c| {
        schedules(c, if c.thorough() { &[4, 3] } else { &[3, 3] }, &fewer, true)
    });
    check.space("schedules of three threads", |c| {
        schedules(c, if c.thorough() { &[2, 2, 2] } else { &[2, 2, 1] }, &fewer, true)
    });

    check.space("operations", |c| {
        let before = Instant::now();
        let kinds = [OperationType::Query, OperationType::Mutation, OperationType::Subscription];
        let document: Arc<str> = "{ a }".into();
        let start = c.choose(4);
        let mut builder = match start {
            3 => ExecutedOperation::builder_with_default(),
            n => ExecutedOperation::builder(kinds[n]),
        };
        let mut kind = kinds[start % 3];
        let mut name = None;
        for n in 0..c.choose(3) {
            name = Some(*c.pick(&["A", "", "é"]));
            builder.name(name.unwrap());
            let _ = n;
        }
        let with_document = c.flag();
        if with_document {
            builder.document(&document);
        }
        if c.flag() {
            kind = *c.pick(&kinds);
            builder.operation_type(kind);
        }
        let mut status = GraphqlResponseStatus::Success;
        for _ in 0..c.choose(3) {
            status = *c.pick(&STATUSES);
            builder.status(status);
        }
        let cached = c.flag();
        builder.cached_plan(cached);
        let complexity = *c.pick(&[None, Some(0), Some(u64::MAX)]);
        if let Some(complexity) = complexity {
            builder.complexity(complexity);
        }
        let deprecated = *c.pick(&[None, Some(false), Some(true)]);
        if let Some(deprecated) = deprecated {
            builder.has_deprecated_fields(deprecated);
        }
        let mut prepared = Duration::ZERO;
        let prepares = c.choose(3);
        for _ in 0..prepares {
            prepared = builder.track_prepare();
        }
        let queue = EventQueue::new(Some(EventFilter::All));
        if c.flag() {
            queue.push_operation(builder.clone());
            queue.pop();
        }
        queue.push_operation(builder);
        let Some(Event::Operation(e)) = queue.pop() else {
            return c.fail("kind", "not an operation");
        };
        let total = before.elapsed();
        c.outcome(&(kind, &format!("{status:?}")));
        c.validated(1);
        let expected = (
            name.map(|n| n.to_string()),
            if with_document { "{ a }" } else { "" },
            prepared,
            cached,
            format!("{status:?}"),
            kind,
            complexity,
            deprecated.unwrap_or(false),
        );
        let got = (
            e.name.clone(),
            &*e.document,
            e.prepare_duration,
            e.cached_plan,
            format!("{:?}", e.status),
            e.operation_type,
            e.complexity,
            e.has_deprecated_fields,
        );
        c.check_eq("operation", &expected, &got, "the operation");
        c.check(e.prepare_duration <= e.duration && e.duration <= total, "operation-durations", || {
            format!("prepared for {:?}, took {:?} of {total:?}", e.prepare_duration, e.duration)
        });
        c.check(queue.pop().is_none(), "operation-twice", || "two events".into());
    });

    check.space("subgraph requests", |c| {
        let before = Instant::now();
        let method = c.pick(&[http::Method::GET, http::Method::POST]).clone();
        let name = *c.pick(&["", "products"]);
        let url = *c.pick(&["", "http://a/b?c=d"]);
        let mut builder = ExecutedSubgraphRequest::builder(name, method.clone(), url);
        let mut executions = Vec::new();
        for i in 0..c.choose(if c.thorough() { 4 } else { 3 }) {
            let (execution, shown) = match c.choose(5) {
                0 => (RequestExecution::InternalServerError, "500".to_string()),
                1 => (RequestExecution::RequestError, "error".into()),
                2 => (RequestExecution::RateLimited, "limited".into()),
                n => {
                    let mut b = SubgraphResponse::builder();
                    let mut headers = http::HeaderMap::new();
                    let mut status = 200;
                    if n == 4 {
                        status = 207;
                        b.status(http::StatusCode::from_u16(207).unwrap());
                        headers.append("x-a", format!("{i}").parse().unwrap());
                        headers.append("x-a", "2".parse().unwrap());
                        b.headers(headers.clone());
                    }
                    let track = c.choose(4);
                    if track & 1 == 1 {
                        b.track_connection();
                    }
                    if track & 2 == 2 {
                        b.track_response();
                    }
                    let r = b.build();
                    c.check(
                        (track & 1 == 1 || r.connection_time.is_zero())
                            && (track & 2 == 2 || r.response_time.is_zero())
                            && (track != 3 || r.connection_time <= r.response_time)
                            && r.response_time <= before.elapsed()
                            && r.connection_time <= before.elapsed(),
                        "response-durations",
                        || format!("{r:?}"),
                    );
                    (RequestExecution::Response(r), format!("{status} {headers:?}"))
                }
            };
            builder.push_execution(execution);
            executions.push(shown);
        }
        let mut cache = "Miss".to_string();
        if c.flag() {
            let status = *c.pick(&[CacheStatus::Hit, CacheStatus::PartialHit, CacheStatus::Miss]);
            cache = format!("{status:?}");
            builder.cache_status(status);
        }
        let mut errors = false;
        for _ in 0..c.choose(3) {
            let status = *c.pick(&STATUSES);
            errors = !matches!(status, GraphqlResponseStatus::Success);
            builder.graphql_response_status(status);
        }
        let queue = EventQueue::new(Some(EventFilter::Types(EventFilterType::SubgraphRequest.into())));
        queue.push_subgraph_request(builder);
        let Some(Event::Subgraph(e)) = queue.pop() else {
            return c.fail("kind", "not a subgraph request");
        };
        let total = before.elapsed();
        c.outcome(&(errors, cache.clone(), executions.len()));
        c.validated(1);
        let got_executions: Vec<String> = e
            .executions
            .iter()
            .map(|e| match e {
                RequestExecution::InternalServerError => "500".to_string(),
                RequestExecution::RequestError => "error".into(),
                RequestExecution::RateLimited => "limited".into(),
                RequestExecution::Response(r) => format!("{} {:?}", r.status.as_u16(), r.headers),
            })
            .collect();
        c.check_eq(
            "subgraph-request",
            &(name, method, url, executions, cache, errors),
            &(e.subgraph_name.as_str(), e.method.clone(), e.url.as_str(), got_executions, format!("{:?}", e.cache_status), e.has_errors),
            "the request",
        );
        c.check(e.total_duration <= total, "subgraph-duration", || format!("{:?} of {total:?}", e.total_duration));
    });

    check.space("http requests", |c| {
        let url = *c.pick(&["", "/graphql", "é"]);
        let mut builder = ExecutedHttpRequest::builder(url);
        let mut method = http::Method::POST;
        let mut status = 200;
        for _ in 0..c.choose(4) {
            if c.flag() {
                method = c.pick(&[http::Method::GET, http::Method::POST, http::Method::OPTIONS]).clone();
                builder = builder.method(method.clone());
            } else {
                status = *c.pick(&[200, 100, 404, 500, 999]);
                builder = builder.response_status(http::StatusCode::from_u16(status).unwrap());
            }
        }
        let queue = EventQueue::new(Some(EventFilter::Types(EventFilterType::HttpRequest.into())));
        queue.push_http_request(builder);
        let Some(Event::Http(e)) = queue.pop() else {
            return c.fail("kind", "not a request");
        };
        c.outcome(&status);
        c.validated(1);
        c.check_eq("http-request", &(url, method, status), &(e.url.as_str(), e.method.clone(), e.response_status.as_u16()), "the request");
    });
}
