//! C15 CSV reader, C16 svmlight reader, C17 feature statistics, C18 splits.
use crate::fw::*;
use crate::util::*;
use miniboosts::prelude::*;
use miniboosts::Feature;

/// What a sample looks like through its public API.
#[derive(Debug, PartialEq, Clone)]
pub struct View {
    pub shape: (usize, usize),
    pub names: Vec<String>,
    pub rows: Vec<(Vec<f64>, f64)>,
}

pub fn view(s: &Sample) -> View {
    let shape = s.shape();
    View {
        shape,
        names: s.features().iter().map(|f| f.name().to_string()).collect(),
        rows: (0..shape.0).map(|i| s.at(i)).collect(),
    }
}

/// Internal agreement of the accessors of one sample.
pub fn coherent(s: &Sample) -> Result<(), String> {
    let (n, k) = s.shape();
    if s.features().len() != k {
        return Err(format!("{} features, shape says {k}", s.features().len()));
    }
    if s.target().len() != n {
        return Err(format!("{} targets, shape says {n}", s.target().len()));
    }
    for (j, f) in s.features().iter().enumerate() {
        for i in 0..n {
            if f[i].to_bits() != s.at(i).0[j].to_bits() {
                return Err(format!("feature {j} row {i}: {} and {}", f[i], s.at(i).0[j]));
            }
        }
        match f {
            Feature::Dense(d) => {
                if d.len() != n || f.len() != n || d.iter().copied().collect::<Vec<_>>() != (0..n).map(|i| f[i]).collect::<Vec<_>>() {
                    return Err(format!("dense feature {j} holds {} of {n} values", d.len()));
                }
            }
            Feature::Sparse(sp) => {
                let nz: Vec<(usize, f64)> = (0..n).map(|i| (i, f[i])).filter(|x| x.1 != 0.0).collect();
                let stored: Vec<(usize, f64)> = sp.iter().copied().collect();
                if stored != nz {
                    return Err(format!("sparse feature {j} stores {stored:?}, its non-zero values are {nz:?}"));
                }
                if sp.len() != nz.len() || sp.has_zero() != (nz.len() < n) || sp.zero_counts() != n - nz.len() || f.is_empty() != nz.is_empty() {
                    return Err(format!("sparse feature {j} counts: len {}, has_zero {}, zero_counts {}", sp.len(), sp.has_zero(), sp.zero_counts()));
                }
            }
        }
    }
    let mut u = s.target().to_vec();
    u.sort_by(|a, b| a.partial_cmp(b).unwrap());
    u.dedup();
    if s.unique_target() != u {
        return Err(format!("unique targets {:?}, expected {u:?}", s.unique_target()));
    }
    Ok(())
}

/// The sample is the table `want`, whatever accessor one uses. Compared bit by bit except for the sign of zero.
fn same_view(sample: &Sample, want: &View, loc: &mut Local) {
    let eq = |a: f64, b: f64| a == b || (a.is_nan() && b.is_nan());
    loc.check(sample.shape() == want.shape, || format!("shape {:?}, the file has {:?}", sample.shape(), want.shape));
    if sample.shape() != want.shape {
        return;
    }
    for i in 0..want.shape.0 {
        let (x, y) = sample.at(i);
        if !(x.len() == want.rows[i].0.len() && x.iter().zip(&want.rows[i].0).all(|(a, b)| eq(*a, *b)) && y == want.rows[i].1) {
            let j = (0..x.len()).find(|j| !eq(x[*j], want.rows[i].0[*j]));
            return loc.viol(format!("row {i}: differs in column {j:?}: {:?}, the file says {:?}; label {y}, the file says {}", j.map(|j| x[j]), j.map(|j| want.rows[i].0[j]), want.rows[i].1));
        }
    }
    for (j, n) in want.names.iter().enumerate() {
        let f = &sample.features()[j];
        if f.name() != n {
            return loc.viol(format!("column {j} is called {:?}, the file says {n:?}", f.name()));
        }
        for i in 0..want.shape.0 {
            if !eq(f[i], want.rows[i].0[j]) || !eq(sample[n][i], want.rows[i].0[j]) {
                return loc.viol(format!("column {n:?} row {i}: {} by position, {} by name, the file says {}", f[i], sample[n][i], want.rows[i].0[j]));
            }
        }
    }
    if let Err(e) = coherent(sample) {
        loc.viol(e);
    }
}

fn read_csv(path: &std::path::Path, header: bool, target: &str) -> Result<std::io::Result<Sample>, String> {
    guarded(|| SampleReader::default().file(path.to_path_buf()).has_header(header).target_feature(target).read())
}

const HEAD: [&str; 4] = ["class", "a b", "x", "Y1"];

pub fn c15(run: &mut Run) {
    // Tokens and the numbers they stand for.
    let tokens: Vec<(&str, f64)> = if run.quick() {
        vec![("1", 1.0), ("-1.0", -1.0), (" 0.5 ", 0.5), ("1e-3", 1e-3)]
    } else {
        vec![("1", 1.0), ("-1.0", -1.0), (" 0.5 ", 0.5), ("1e-3", 1e-3), ("0", 0.0), ("+7", 7.0), ("\t-2e2", -200.0)]
    };
    #[derive(Clone)]
    struct Case {
        header: bool,
        rows: usize,
        cols: usize,
        target: usize,
        eol: &'static str,
        last: bool,
    }
    let mut cases = vec![];
    for header in [true, false] {
        for (rows, cols) in [(0, 2), (1, 1), (1, 2), (2, 2), (1, 3), (2, 3), (3, 2), (1, 4), (3, 1)] {
            if !header && rows == 0 {
                continue;
            }
            for target in 0..cols {
                for eol in ["\n", "\r\n"] {
                    for last in [true, false] {
                        cases.push(Case { header, rows, cols, target, eol, last });
                    }
                }
            }
        }
    }
    let cap = run.pick(4096usize, 40_000);
    let scratch = Scratch::new("c15");
    let dir = scratch.0.clone();
    run.explore("csv", &cases, |c| format!("header={},{}x{},target{},eol{},last{}", c.header, c.rows, c.cols, c.target, c.eol.len(), c.last), |c, loc| {
        let cells = c.rows * c.cols;
        let k = tokens.len();
        // Keep the whole product within bounds by shrinking the alphabet.
        let mut kk = k;
        while (kk as f64).powi(cells as i32) > cap as f64 {
            kk -= 1;
        }
        let names: Vec<String> = (0..c.cols).map(|j| if c.header { HEAD[(j + 4 - c.target) % 4].to_string() } else { format!("Feat. [{}]", j + 1) }).collect();
        let path = own(&dir).join(format!("{}.csv", hash_of(&loc.key().to_string())));
        for s in sequences(kk, cells) {
            let mut lines = vec![];
            if c.header {
                lines.push(names.join(","));
            }
            let val = |i: usize, j: usize| tokens[s[i * c.cols + j]];
            for i in 0..c.rows {
                lines.push((0..c.cols).map(|j| val(i, j).0.to_string()).collect::<Vec<_>>().join(","));
            }
            let body = lines.join(c.eol) + if c.last { c.eol } else { "" };
            std::fs::write(&path, &body).unwrap();
            let want = View {
                shape: (c.rows, c.cols - 1),
                names: (0..c.cols).filter(|j| *j != c.target).map(|j| names[j].clone()).collect(),
                rows: (0..c.rows).map(|i| ((0..c.cols).filter(|j| *j != c.target).map(|j| val(i, j).1).collect(), val(i, c.target).1)).collect(),
            };
            loc.trace();
            loc.steps(cells + 1);
            loc.state(&body);
            match read_csv(&path, c.header, &names[c.target]) {
                Ok(Ok(sample)) => {
                    let got = view(&sample);
                    loc.outcome(&format!("{:?}", got.shape));
                    loc.check(got == want, || format!("read {got:?}, the file says {want:?}"));
                    if let Err(e) = coherent(&sample) {
                        loc.viol(e);
                    }
                    for (j, n) in want.names.iter().enumerate() {
                        let col: Result<Vec<f64>, _> = guarded(|| (0..c.rows).map(|i| sample[n][i]).collect());
                        let w: Vec<f64> = want.rows.iter().map(|r| r.0[j]).collect();
                        loc.check(col.as_ref() == Ok(&w), || format!("column {n:?} by name: {col:?}, expected {w:?}"));
                    }
                }
                o => loc.viol(format!("refused {body:?}: {:?}", o.map(|r| r.map(|_| ())))),
            }
        }
        let _ = std::fs::remove_file(&path);
    });
    // Long and wide tables, spellings of every kind of number, awkward names.
    let spell: Vec<(String, f64)> = {
        let mut v: Vec<String> = ["0", "-0.0", "1", "-1", "+3", "007", "1.", ".5", "-.25", "1e308", "-1E+308", "4.9e-324", "1e-310", "2.2250738585072014e-308", "1.7976931348623157e308",
            "123456789012345678", "9007199254740993", "0.1", "0.30000000000000004", "3.141592653589793238462643383279502884197", "1e22", "1e23", "-7.0e-05", "inf", "-inf", " 5", "6 ", "\t7\t", "00.5", "2e0"]
            .iter().map(|s| s.to_string()).collect();
        v.extend((0..12).map(|k| format!("{}", (k as f64 * 0.7311).sin() * 10f64.powi(k * 3 - 18))));
        v.into_iter().map(|s| { let x = s.trim().parse::<f64>().unwrap(); (s, x) }).collect()
    };
    let naming: Vec<(&str, fn(usize) -> String)> = vec![
        ("numbered", |j| format!("c{j}")),
        ("prefixes", |j| "x".repeat(j + 1)),
        ("blanks", |j| format!(" {} ", j)),
        ("odd", |j| format!("\"{j}\"é;:#")),
        ("numeric", |j| format!("{}", j as f64 / 2.0)),
        ("case", |j| format!("{}{}", if j % 2 == 0 { "Col" } else { "col" }, j / 2)),
    ];
    let mut shapes: Vec<(usize, usize)> = vec![(1, 30), (2, 60), (7, 9), (63, 2), (64, 3), (65, 4), (127, 2), (128, 2), (129, 2), (255, 3), (256, 3), (257, 3), (300, 5), (1000, 2), (1025, 2), (3, 257), (2, 1100), (4097, 2), (65_537, 2), (2, 4099)];
    if !run.quick() {
        shapes.extend([(4097, 3), (20, 20), (33, 33), (511, 4), (513, 4), (2049, 2), (10_000, 2), (70_000, 2), (2, 5000), (2, 66_000), (600, 40)]);
        shapes.extend((1..=40).map(|k| (k * 7, 1 + k % 5)));
    }
    let mut longs = vec![];
    for &(rows, cols) in &shapes {
        for header in [true, false] {
            for n in 0..if header { naming.len() } else { 1 } {
                for target in [0, cols / 2, cols - 1] {
                    for shift in 0..run.pick(3usize, spell.len()).min(1 + 400_000 / (rows * cols)) {
                        longs.push((rows, cols, header, n, target, shift));
                    }
                }
            }
        }
    }
    longs.sort();
    longs.dedup();
    run.explore("long", &longs, |c| format!("{}x{},header={},{},target{},shift{}", c.0, c.1, c.2, naming[c.3].0, c.4, c.5), |&(rows, cols, header, n, target, shift), loc| {
        let names: Vec<String> = (0..cols).map(|j| if header { naming[n].1(j) } else { format!("Feat. [{}]", j + 1) }).collect();
        let val = |i: usize, j: usize| &spell[(i * cols + j + shift * 11 + i / 7) % spell.len()];
        let lab = |i: usize| -> (&str, f64) {
            match shift % 3 {
                0 => [("1", 1.0), ("-1", -1.0), ("1", 1.0)][i % 3],
                1 => { let x = &spell[(i * 7 + shift) % spell.len()]; (x.0.as_str(), x.1) }
                _ => [("1", 1.0), ("1.0000001", 1.0000001), ("0.9999999999999999", 0.9999999999999999), ("1e-9", 1e-9), ("0", 0.0), ("-1e-200", -1e-200), ("3", 3.0)][(i * i) % 7],
            }
        };
        let eol = if shift % 2 == 0 { "\n" } else { "\r\n" };
        let mut body = String::new();
        if header {
            body += &(names.join(",") + eol);
        }
        for i in 0..rows {
            let line: Vec<&str> = (0..cols).map(|j| if j == target { lab(i).0 } else { val(i, j).0.as_str() }).collect();
            body += &line.join(",");
            if i + 1 < rows || shift % 3 != 0 {
                body += eol;
            }
        }
        let path = own(&dir).join(format!("long-{}.csv", hash_of(&loc.key().to_string())));
        std::fs::write(&path, &body).unwrap();
        let want = View {
            shape: (rows, cols - 1),
            names: (0..cols).filter(|j| *j != target).map(|j| names[j].clone()).collect(),
            rows: (0..rows).map(|i| ((0..cols).filter(|j| *j != target).map(|j| val(i, j).1).collect(), lab(i).1)).collect(),
        };
        loc.trace();
        loc.steps(rows * cols);
        loc.state(&body);
        match read_csv(&path, header, &names[target]) {
            Ok(Ok(sample)) => {
                same_view(&sample, &want, loc);
                loc.outcome(&"read");
            }
            o => loc.viol(format!("refused a table of {rows} rows and {cols} columns: {:?}", o.map(|r| r.map(|_| ())))),
        }
        let _ = std::fs::remove_file(&path);
    });
    // A defect in any single row of a longer file is refused.
    let mut deep = vec![];
    for rows in [2usize, 9, 70, 130, 300, 1030] {
        for at in [0, 1, rows / 2, rows - 2, rows - 1] {
            for (k, bad) in ["1,2", "1,2,3,4", "1,,3", "1,2,x", "", "1;2;3", "1 2,3,4", "1,2,3,", "0x1,2,3", "1,2,--3", "1,2,1e"].iter().enumerate() {
                for header in [true, false] {
                    deep.push((rows, at, k, *bad, header));
                }
            }
        }
    }
    deep.sort();
    deep.dedup();
    run.explore("deep-malformed", &deep, |c| format!("{}rows,at{},kind{},header={}", c.0, c.1, c.2, c.4), |&(rows, at, _, bad, header), loc| {
        let path = own(&dir).join(format!("deep-{}.csv", hash_of(&loc.key().to_string())));
        let mut lines: Vec<String> = (0..rows).map(|i| if i == at { bad.to_string() } else { format!("{},{},{}", if i % 2 == 0 { 1 } else { -1 }, i, i * i) }).collect();
        // A first row of another length is only wrong with respect to the header or the rows after it.
        if header {
            lines.insert(0, "class,a,b".into());
        }
        std::fs::write(&path, lines.join("\n") + "\n").unwrap();
        let r = read_csv(&path, header, if header { "class" } else { "Feat. [1]" });
        loc.trace();
        loc.outcome(&bad);
        if let Ok(Ok(s)) = r {
            loc.viol(format!("row {at} of {rows} is {bad:?}, accepted as shape {:?}", s.shape()));
        }
        let _ = std::fs::remove_file(&path);
    });
    // Column names that differ in very little.
    let alike: Vec<Vec<&str>> = vec![
        vec!["y", " y", "Y", "y ", "yy", "y_"],
        vec!["Feat. [2]", "Feat. [1]", "feat. [1]", "Feat.[1]", "Feat. [10]", "1"],
        vec!["é", "e", "\u{e9}\u{301}", "ÿ", "É", "-"],
        vec!["a.b", "a b", "a\tb", "ab", "a-b", "\"a b\""],
        vec!["0", "00", "0.0", "-0", "1e0", "nan"],
    ];
    let mut headers = vec![];
    for (h, names) in alike.iter().enumerate() {
        for first in 0..names.len() {
            for second in 0..names.len() {
                for third in 0..names.len() {
                    if first != second && second != third && first != third {
                        headers.push((h, vec![names[first], names[second], names[third]]));
                    }
                }
            }
        }
    }
    run.explore("names", &headers, |c| format!("set{},{:?}", c.0, c.1), |(_, names), loc| {
        let path = own(&dir).join(format!("names-{}.csv", hash_of(&loc.key().to_string())));
        let body = format!("{}\n1,2,3\n4,5,6\n", names.join(","));
        std::fs::write(&path, &body).unwrap();
        for target in 0..3 {
            let keep: Vec<usize> = (0..3).filter(|j| *j != target).collect();
            let want = View {
                shape: (2, 2),
                names: keep.iter().map(|j| names[*j].to_string()).collect(),
                rows: (0..2).map(|i| (keep.iter().map(|j| (3 * i + j + 1) as f64).collect(), (3 * i + target + 1) as f64)).collect(),
            };
            loc.trace();
            loc.step();
            loc.state(&format!("{body}{target}"));
            match read_csv(&path, true, names[target]) {
                Ok(Ok(sample)) => same_view(&sample, &want, loc),
                o => loc.viol(format!("target {:?} in {body:?}: {:?}", names[target], o.map(|r| r.map(|_| ())))),
            }
        }
        loc.outcome(&names.len());
        let _ = std::fs::remove_file(&path);
    });
    // Malformed files are refused, never half-read.
    let bad: Vec<(&str, bool, &str, &str)> = vec![
        ("missing target column", true, "class,x\n1,2\n", "label"),
        ("non-number", true, "class,x\n1,two\n", "class"),
        ("non-number first row, no header", false, "1,two\n1,2\n", "Feat. [1]"),
        ("non-number later row, no header", false, "1,2\n1,two\n", "Feat. [1]"),
        ("empty cell", true, "class,x\n1,\n", "class"),
        ("header read as data", false, "class,x\n1,2\n", "Feat. [1]"),
        ("long row", true, "class,x\n1,2,3\n", "class"),
        ("long later row, no header", false, "1,2\n1,2,3\n", "Feat. [1]"),
        ("short row", true, "class,x,z\n1,2\n1,2,3\n", "class"),
        ("short row last column", true, "class,x,z\n1,2,3\n1,2\n", "z"),
        ("short first row", true, "class,x\n1\n-1,5\n", "class"),
        ("short later row, no header", false, "1,2\n-1\n1,3\n", "Feat. [1]"),
        ("target index zero, no header", false, "1,2\n1,3\n", "Feat. [0]"),
        ("target index past the end, no header", false, "1,2\n1,3\n", "Feat. [3]"),
    ];
    // What only looks like a number, in every position of a table.
    let near = [
        "\"1\"", "'1'", "#1", "1_000", "1 000", "1;5", "1:5", "0x10", "1e", "1.0.0", "--1", "+", "-", ".", "e5", "$5", "5%", "1f",
        "1d0", "(1)", "true", "NA", "N/A", "null", "None", "?", "1/2", "\u{ff11}", "\u{221e}", "\u{2212}1", "1\u{0}",
    ];
    let mut odd = vec![];
    for tok in near {
        for header in [true, false] {
            for rows in [1usize, 3] {
                for at in 0..rows * 2 {
                    odd.push((tok, header, rows, at));
                }
            }
        }
    }
    // Lines that are no data at all, between the data.
    let mut stray = vec![];
    for line in ["# comment", "#", "% 1,2", "", "   ", ",", ";", "class,x", "---", "1,2,", ",1,2", "1", "1,2 # note", "1;2", "1\t2"] {
        for header in [true, false] {
            for at in 0..3usize {
                stray.push((line, header, at));
            }
        }
    }
    run.explore("near-numbers", &odd, |c| format!("{:?},header={},{}rows,at{}", c.0, c.1, c.2, c.3), |&(tok, header, rows, at), loc| {
        let mut body = String::from(if header { "class,x\n" } else { "" });
        for i in 0..rows {
            let cell = |j: usize| if 2 * i + j == at { tok.to_string() } else { format!("{}", 1 + i + j) };
            body += &format!("{},{}\n", cell(0), cell(1));
        }
        let path = own(&dir).join("near.csv");
        std::fs::write(&path, &body).unwrap();
        let r = read_csv(&path, header, if header { "class" } else { "Feat. [1]" });
        loc.trace();
        loc.state(&body);
        if let Ok(Ok(s)) = r {
            loc.viol(format!("{body:?} was accepted as {:?}", view(&s)));
        }
    });
    run.explore("stray-lines", &stray, |c| format!("{:?},header={},at{}", c.0, c.1, c.2), |&(line, header, at), loc| {
        let mut body = String::from(if header { "class,x\n" } else { "" });
        for i in 0..3 {
            if i == at {
                body += line;
                body += "\n";
            }
            body += &format!("{},{}\n", i + 1, i + 2);
        }
        let path = own(&dir).join("stray.csv");
        std::fs::write(&path, &body).unwrap();
        let r = read_csv(&path, header, if header { "class" } else { "Feat. [1]" });
        loc.trace();
        loc.state(&body);
        // Without a header the first line says how many columns there are, whatever it is;
        // every one of these lines differs from the others in that or holds no numbers.
        if let Ok(Ok(s)) = r {
            loc.viol(format!("{body:?} was accepted as {:?}", view(&s)));
        }
    });
    run.explore("malformed", &bad, |b| b.0.replace(' ', "-"), |b, loc| {
        let path = own(&dir).join(format!("bad-{}.csv", b.0.replace(' ', "-")));
        std::fs::write(&path, b.2).unwrap();
        let r = read_csv(&path, b.1, b.3);
        loc.trace();
        loc.outcome(&b.0);
        if let Ok(Ok(s)) = r {
            loc.viol(format!("{:?} ({}) was accepted as {:?}", b.2, b.0, view(&s)));
        }
    });
    let missing = [true, false];
    run.explore("missing", &missing, |h| format!("header={h}"), |h, loc| {
        let r = read_csv(&own(&dir).join("does-not-exist.csv"), *h, "class");
        loc.trace();
        loc.check(matches!(r, Ok(Err(_))), || format!("a missing file gave {:?}", r.as_ref().map(|x| x.as_ref().map(|_| ()))));
    });
    drop(scratch);
    run.rule = "state = one file content; case = (header, shape, target column, line ending, final newline), inside it every matrix over the token alphabet; malformed files enumerated by kind".into();
}

pub fn c16(run: &mut Run) {
    #[derive(Clone)]
    struct Case {
        rows: usize,
        idx: Vec<usize>,
        sep: &'static str,
        order: bool,
        last: bool,
    }
    let mut cases = vec![];
    let idxs: Vec<Vec<usize>> = vec![vec![0, 1], vec![1, 2], vec![1, 3], vec![0, 2, 4], vec![2], vec![1, 2, 3]];
    for idx in idxs {
        for rows in 1..=3usize {
            for sep in [" ", "  ", "\t"] {
                for order in [true, false] {
                    for last in [true, false] {
                        cases.push(Case { rows, idx: idx.clone(), sep, order, last });
                    }
                }
            }
        }
    }
    // One cell: absent, explicit zero, or a value.
    let cells: Vec<(Option<&str>, f64)> = if run.quick() {
        vec![(None, 0.0), (Some("0.5"), 0.5), (Some("-0.5"), -0.5), (Some("0"), 0.0)]
    } else {
        vec![(None, 0.0), (Some("0.5"), 0.5), (Some("-0.5"), -0.5), (Some("0"), 0.0), (Some("-3e1"), -30.0)]
    };
    let labels = [("+1", 1.0), ("-1", -1.0), ("2.5", 2.5)];
    let cap = run.pick(4100.0f64, 30_000.0);
    let scratch = Scratch::new("c16");
    let dir = scratch.0.clone();
    run.explore("svmlight", &cases, |c| format!("{}rows,idx{},sep{:?},ord{},last{}", c.rows, fmt_i(&c.idx), c.sep, c.order, c.last), |c, loc| {
        let k = c.idx.len();
        let n = c.rows * k;
        let mut alphabet = cells.len();
        while (alphabet as f64).powi(n as i32) > cap {
            alphabet -= 1;
        }
        let path = own(&dir).join(format!("{}.svm", hash_of(&loc.key().to_string())));
        for s in sequences(alphabet, n) {
            let mut lines = vec![];
            let mut dense = vec![];
            let lab = |i: usize| labels[(i + s.iter().sum::<usize>()) % 3];
            for i in 0..c.rows {
                let mut words = vec![];
                let mut row = vec![0.0; c.idx.last().unwrap() + 1];
                for j in 0..k {
                    let (t, v) = cells[s[i * k + j]];
                    if let Some(t) = t {
                        // Zero is written in several ways.
                        let t = if t == "0" { ["0", "-0", "0.0", "-0e3"][(i + j + s.iter().sum::<usize>()) % 4] } else { t };
                        words.push(format!("{}:{t}", c.idx[j]));
                        row[c.idx[j]] = v;
                    }
                }
                if !c.order {
                    words.reverse();
                }
                words.insert(0, lab(i).0.to_string());
                lines.push(words.join(c.sep));
                dense.push(row);
            }
            let body = lines.join("\n") + if c.last { "\n" } else { "" };
            std::fs::write(&path, &body).unwrap();
            let kept: Vec<usize> = (0..dense[0].len()).filter(|j| dense.iter().any(|r| r[*j] != 0.0)).collect();
            let want = View {
                shape: (c.rows, kept.len()),
                names: kept.iter().map(|j| format!("Feat. [{}]", j + 1)).collect(),
                rows: (0..c.rows).map(|i| (kept.iter().map(|j| dense[i][*j]).collect(), lab(i).1)).collect(),
            };
            loc.trace();
            loc.steps(n + c.rows);
            loc.state(&body);
            match read_svm_file(&path) {
                Ok(Ok(sample)) => {
                    let got = view(&sample);
                    loc.outcome(&format!("{:?}", got.shape));
                    loc.check(got == want, || format!("read {got:?}, the file {body:?} says {want:?}"));
                    if let Err(e) = coherent(&sample) {
                        loc.viol(e);
                    }
                    for (j, n) in want.names.iter().enumerate() {
                        let col: Result<Vec<f64>, _> = guarded(|| (0..c.rows).map(|i| sample[n][i]).collect());
                        let w: Vec<f64> = want.rows.iter().map(|r| r.0[j]).collect();
                        loc.check(col.as_ref() == Ok(&w), || format!("column {n:?} by name: {col:?}, expected {w:?}"));
                    }
                }
                o => loc.viol(format!("refused {body:?}: {:?}", o.map(|r| r.map(|_| ())))),
            }
        }
        let _ = std::fs::remove_file(&path);
    });
    // Many rows, many columns, large indices, patterns of zeros, spellings of numbers.
    let gaps: Vec<(&str, fn(usize) -> usize)> = vec![
        ("dense", |j| j),
        ("from-one", |j| j + 1),
        ("odd", |j| 2 * j + 1),
        ("squares", |j| j * j),
        ("far", |j| 255 + j * 37),
    ];
    let zeros: Vec<(&str, fn(usize, usize) -> bool)> = vec![
        ("none", |_, _| false),
        ("diagonal", |i, j| i % 7 != j % 7),
        ("late", |i, j| i < 3 * j),
        ("early", |i, j| i > j),
        ("rare", |i, j| (i * 31 + j * 17) % 97 != 0),
        ("blocks", |i, j| (i / 64 + j) % 2 == 0),
        ("last", |i, j| i != j + 5),
        ("rows", |i, _| i % 3 == 1),
    ];
    let lits: Vec<(&str, f64)> = vec![("1", 1.0), ("-2.5e-3", -2.5e-3), ("1e300", 1e300), ("+4", 4.0), ("0.1", 0.1), ("4.9e-324", 4.9e-324), ("-1E5", -1e5), ("123456789.125", 123456789.125), (".5", 0.5), ("1e-9", 1e-9)];
    let small: Vec<(&str, f64)> = vec![("1", 1.0), ("-1", -1.0), ("2", 2.0), ("-2", -2.0)];
    let mut shapes: Vec<(usize, usize)> = vec![(1, 40), (5, 5), (64, 3), (65, 3), (129, 4), (255, 3), (256, 3), (257, 3), (300, 12), (1000, 2), (20, 70), (4097, 2), (65_538, 2)];
    if !run.quick() {
        shapes.extend([(2, 300), (513, 9), (1025, 6), (4097, 2), (70, 70), (3, 130)]);
        shapes.extend((1..=30).map(|k| (k * 9, 1 + k % 6)));
    }
    let mut longs = vec![];
    for &(rows, cols) in &shapes {
        for g in 0..gaps.len() {
            for z in 0..zeros.len() {
                for style in 0..run.pick(2usize, 6) {
                    // The very long ones with one pattern of columns only.
                    if rows <= 10_000 || g == 1 && z % 3 == 1 {
                        longs.push((rows, cols, g, z, style));
                    }
                }
            }
        }
    }
    run.explore("long", &longs, |c| format!("{}x{},{},{},style{}", c.0, c.1, gaps[c.2].0, zeros[c.3].0, c.4), |&(rows, cols, g, z, style), loc| {
        let idx: Vec<usize> = (0..cols).map(gaps[g].1).collect();
        let val = |i: usize, j: usize| if zeros[z].1(i, j) { ("", 0.0) } else if style % 2 == 0 { lits[(i * 3 + j * 5 + style) % lits.len()] } else { small[(i + j * 3 + style) % small.len()] };
        let lab = |i: usize| [1.0, -1.0, 3.0, -0.5, 1e6, 1.0000001, 1e-9][(i * i + style) % 7];
        let sep = [" ", "  ", "\t", " \t "][style % 4];
        let mut body = String::new();
        for i in 0..rows {
            let mut words: Vec<String> = vec![];
            for j in 0..cols {
                let (t, _) = val(i, j);
                if !t.is_empty() {
                    words.push(format!("{}:{t}", idx[j]));
                } else if style % 3 == 2 && j % 2 == 0 {
                    words.push(format!("{}:0.0", idx[j]));
                }
            }
            if style % 2 == 1 {
                words.reverse();
            }
            body += &format!("{}{}{}", lab(i), if words.is_empty() { "" } else { sep }, words.join(sep));
            if i + 1 < rows || style != 1 {
                body += if style == 3 { " \r\n" } else { "\n" };
            }
        }
        let path = own(&dir).join(format!("long-{}.svm", hash_of(&loc.key().to_string())));
        std::fs::write(&path, &body).unwrap();
        let kept: Vec<usize> = (0..cols).filter(|j| (0..rows).any(|i| val(i, *j).1 != 0.0)).collect();
        let want = View {
            shape: (rows, kept.len()),
            names: kept.iter().map(|j| format!("Feat. [{}]", idx[*j] + 1)).collect(),
            rows: (0..rows).map(|i| (kept.iter().map(|j| val(i, *j).1).collect(), lab(i))).collect(),
        };
        loc.trace();
        loc.steps(rows * cols);
        loc.state(&body);
        match read_svm_file(&path) {
            Ok(Ok(sample)) => {
                same_view(&sample, &want, loc);
                loc.outcome(&want.shape.1);
            }
            o => loc.viol(format!("refused a table of {rows} rows: {:?}", o.map(|r| r.map(|_| ())))),
        }
        let _ = std::fs::remove_file(&path);
    });
    // Feature numbers around the limits of the narrow integer types.
    let high: Vec<usize> = vec![127, 128, 255, 256, 1023, 1024, 4095, 4096, 32767, 32768, 65535, 65536, 70_000];
    run.explore("high", &high, |k| format!("index{k}"), |&k, loc| {
        for lows in [vec![], vec![0usize], vec![1, k - 1]] {
            let mut idx = lows.clone();
            idx.push(k);
            let val = |i: usize, j: usize| if (i + j) % 2 == 0 { 1.5 * (1 + j) as f64 } else { 0.0 };
            let body: String = (0..3).map(|i| format!("{} {}\n", [1, -1, 1][i], (0..idx.len()).filter(|j| val(i, *j) != 0.0).map(|j| format!("{}:{}", idx[j], val(i, j))).collect::<Vec<_>>().join(" "))).collect();
            let path = own(&dir).join(format!("high-{k}.svm"));
            std::fs::write(&path, &body).unwrap();
            let want = View {
                shape: (3, idx.len()),
                names: idx.iter().map(|j| format!("Feat. [{}]", j + 1)).collect(),
                rows: (0..3).map(|i| ((0..idx.len()).map(|j| val(i, j)).collect(), [1.0, -1.0, 1.0][i])).collect(),
            };
            loc.trace();
            loc.step();
            loc.state(&body);
            match read_svm_file(&path) {
                Ok(Ok(sample)) => same_view(&sample, &want, loc),
                o => loc.viol(format!("refused {body:?}: {:?}", o.map(|r| r.map(|_| ())))),
            }
            let _ = std::fs::remove_file(&path);
        }
        loc.outcome(&k);
    });
    let bad: Vec<(&str, &str)> = vec![
        ("label not a number", "one 1:2\n"),
        ("value not a number", "1 1:two\n"),
        ("index not a number", "1 a:2\n"),
        ("negative index", "1 -1:2\n"),
        ("no value", "1 1:\n"),
        ("no colon", "1 7\n"),
        ("later line", "1 1:2\n1 1:x\n"),
        ("lost blank", "1 1:22:3\n"),
        ("lost blank later", "1 1:2 2:1.5\n-1 1:23:2 4:1\n"),
        ("two colons", "1 1::2\n"),
        ("trailing colon", "1 1:2:\n"),
        ("leading colon", "1 :1:2\n"),
    ];
    // Words that belong to no entry, in every place of a small file.
    let mut odd = vec![];
    for word in [
        "qid:3", "sid:1", "#", "# note", "#1:2", "//", "%", "1", "1:", ":2", "1:2,", "1:2;", "1=2", "1,2", "1.5:2", "-1:2", "1e0:2",
        "a:1", "1:a", "1:1_0", "1:0x1", "1:\"2\"", "1:1:1", "\"1\":2", "1:?", "1:NA", "1:+", "1:1e", "(1:2)", "18446744073709551616:1", "\u{ff11}:1",
    ] {
        for line in 0..3usize {
            for at in 0..3usize {
                odd.push((word, line, at));
            }
        }
    }
    run.explore("stray-words", &odd, |c| format!("{:?},line{},at{}", c.0, c.1, c.2), |&(word, line, at), loc| {
        let mut body = String::new();
        for i in 0..3 {
            let mut words: Vec<String> = vec![format!("2:{}", i + 1), format!("3:{}", i + 2)];
            if i == line {
                words.insert(at, word.to_string());
            }
            body += &format!("{} {}\n", if i % 2 == 0 { 1 } else { -1 }, words.join(" "));
        }
        let path = own(&dir).join("stray.svm");
        std::fs::write(&path, &body).unwrap();
        let r = read_svm_file(&path);
        loc.trace();
        loc.state(&body);
        if let Ok(Ok(s)) = r {
            loc.viol(format!("{body:?} was accepted as {:?}", view(&s)));
        }
    });
    let mut stray = vec![];
    for line in ["", "   ", "\t", "# comment", "#", "% 1:2", "label 1:2", "2:1", "qid:1 2:1", "1,2:1", "+ 2:1", "? 2:1", "NA 2:1", "1: 2:1"] {
        for at in 0..3usize {
            stray.push((line, at));
        }
    }
    run.explore("stray-lines", &stray, |c| format!("{:?},at{}", c.0, c.1), |&(line, at), loc| {
        let mut body = String::new();
        for i in 0..3 {
            if i == at {
                body += line;
                body += "\n";
            }
            body += &format!("{} 1:{}\n", if i % 2 == 0 { 1 } else { -1 }, i + 1);
        }
        let path = own(&dir).join("strayline.svm");
        std::fs::write(&path, &body).unwrap();
        let r = read_svm_file(&path);
        loc.trace();
        loc.state(&body);
        if let Ok(Ok(s)) = r {
            loc.viol(format!("{body:?} was accepted as {:?}", view(&s)));
        }
    });
    run.explore("malformed", &bad, |b| b.0.replace(' ', "-"), |b, loc| {
        let path = own(&dir).join(format!("bad-{}.svm", b.0.replace(' ', "-")));
        std::fs::write(&path, b.1).unwrap();
        let r = read_svm_file(&path);
        loc.trace();
        loc.outcome(&b.0);
        if let Ok(Ok(s)) = r {
            loc.viol(format!("{:?} ({}) was accepted as {:?}", b.1, b.0, view(&s)));
        }
    });
    run.explore("missing", &[()], |_| "file".into(), |_, loc| {
        let r = read_svm_file(&own(&dir).join("does-not-exist.svm"));
        loc.trace();
        loc.check(matches!(r, Ok(Err(_))), || "a missing file was not reported".to_string());
    });
    drop(scratch);
    run.rule = "state = one file content; case = (rows, feature indices used, separator, index order, final newline), inside it every assignment of absent / explicit zero / value to the cells".into();
}

fn read_svm_file(path: &std::path::Path) -> Result<std::io::Result<Sample>, String> {
    guarded(|| {
        let r: SampleReader<std::path::PathBuf, &str> = SampleReader::default();
        r.file(path.to_path_buf()).read()
    })
}
