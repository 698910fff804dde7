//! Reference calendar: proleptic Gregorian days and seconds, written from the definition.

pub fn leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}

pub fn month_len(y: i64, m: i64) -> i64 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 if leap(y) => 29,
        2 => 28,
        _ => 0,
    }
}

/// Days before January 1st of year `y`, counted from year 0.
fn days_before_year(y: i64) -> i64 {
    // number of leap years in [0, y)
    let l = |y: i64| (y + 3).div_euclid(4) - (y + 99).div_euclid(100) + (y + 399).div_euclid(400);
    y * 365 + l(y)
}

/// Days since 1970-01-01.
pub fn days(y: i64, m: i64, d: i64) -> i64 {
    let mut n = days_before_year(y) - days_before_year(1970);
    for k in 1..m {
        n += month_len(y, k);
    }
    n + d - 1
}

pub fn civil(days: i64) -> (i64, i64, i64) {
    let mut y = 1970 + days.div_euclid(366);
    // days.div_euclid(366) never overshoots for days >= 0 and never undershoots by much otherwise
    while self::days(y, 1, 1) > days {
        y -= 1;
    }
    while self::days(y + 1, 1, 1) <= days {
        y += 1;
    }
    let mut rest = days - self::days(y, 1, 1);
    let mut m = 1;
    while rest >= month_len(y, m) {
        rest -= month_len(y, m);
        m += 1;
    }
    (y, m, rest + 1)
}

pub const DAY: i64 = 86_400;

pub fn secs(y: i64, mo: i64, d: i64, h: i64, mi: i64, s: i64) -> i64 {
    days(y, mo, d) * DAY + h * 3600 + mi * 60 + s
}

pub fn fmt_date(days: i64) -> String {
    let (y, m, d) = civil(days);
    format!("{y:04}{m:02}{d:02}")
}

pub fn fmt_naive(secs: i64) -> String {
    let t = secs.rem_euclid(DAY);
    format!("{}T{:02}{:02}{:02}", fmt_date(secs.div_euclid(DAY)), t / 3600, t / 60 % 60, t % 60)
}
