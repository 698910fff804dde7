From f760ac62d60b02bcaac70857203a1f4799eaa677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:07 +0000
Subject: [PATCH 01/39] fix: report an alarm without ACTION instead of
 panicking

With several ACTION lines, the kind is now given by the last one, which is also
the one stored in the component.
---
 src/components/valarm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/components/valarm.rs b/src/components/valarm.rs
index 8f593b8..5d0e281 100644
--- a/src/components/valarm.rs
+++ b/src/components/valarm.rs
@@ -12,7 +12,10 @@ impl TryFrom<Vec<crate::ContentLine>> for VAlarm {
     type Error = crate::Error;
 
     fn try_from(properties: Vec<crate::ContentLine>) -> crate::Result<Self> {
-        let action = properties.iter().find(|x| x.key == "ACTION").unwrap();
+        let action = properties
+            .iter()
+            .rfind(|x| x.key == "ACTION")
+            .ok_or_else(|| crate::Error::Parser("Missing field ACTION".to_string()))?;
 
         let component = match action.value.as_str() {
             "AUDIO" => Self::Audio(Audio::try_from(properties)?),
-- 
2.43.0


From 5ab54901b6980f720bdd91d87867d23705ab4d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:07 +0000
Subject: [PATCH 02/39] fix: report a recurrence rule without FREQ instead of
 panicking

---
 src/parser/recurrence.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/recurrence.rs b/src/parser/recurrence.rs
index 9a3d6d3..855eb40 100644
--- a/src/parser/recurrence.rs
+++ b/src/parser/recurrence.rs
@@ -86,7 +86,10 @@ pub(crate) fn rrule(input: crate::ContentLine) -> crate::Result<crate::Recur> {
                 .collect::<std::collections::BTreeMap<_, _>>();
 
             let recur = crate::Recur {
-                freq: map["FREQ"].parse()?,
+                freq: map
+                    .get("FREQ")
+                    .ok_or_else(|| crate::Error::Parser("Missing FREQ".to_string()))?
+                    .parse()?,
                 until: map
                     .get("UNTIL")
                     .map(|x| {
-- 
2.43.0


From 57c016ece377b9505d37ccf17c502eca8eefe818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:07 +0000
Subject: [PATCH 03/39] fix: report a period without separator instead of
 panicking

---
 src/parser/datatype.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index f80c8a0..2d8f6e4 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -156,19 +156,21 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
  * See [3.3.9. Period of Time](https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.9)
  */
 pub(crate) fn period(input: &str) -> crate::Result<crate::Period> {
-    let tokens = input.splitn(2, '/').collect::<Vec<_>>();
+    let (start, end) = input
+        .split_once('/')
+        .ok_or_else(|| crate::Error::Parser(format!("Invalid period: {input}")))?;
 
-    let start = date_time(tokens[0])?.1;
+    let start = date_time(start)?.1;
 
-    let period = if tokens[1].starts_with('P') {
+    let period = if end.starts_with('P') {
         crate::Period::StartDur(crate::period::StartDur {
             start,
-            duration: super::duration(tokens[1].into())?,
+            duration: super::duration(end.into())?,
         })
     } else {
         crate::Period::StartEnd(crate::period::StartEnd {
             start,
-            end: date_time(tokens[1])?.1,
+            end: date_time(end)?.1,
         })
     };
 
-- 
2.43.0


From d191c5d267e0b5bcbdc6a2c39f6cd9575e7e69a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:53 +0000
Subject: [PATCH 04/39] fix: report an out of range duration instead of
 panicking

---
 src/lib.rs             | 24 +++++++++++++++++-------
 src/parser/datatype.rs | 20 +++++++++-----------
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ea8db47..9c1dfe1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -157,12 +157,18 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
         };
 
         let part = match (time, ty) {
-            (false, 'Y') => chrono::TimeDelta::days(365 * interval.parse::<i64>()?),
-            (false, 'M') => chrono::TimeDelta::days(30 * interval.parse::<i64>()?),
-            (false, 'D') => chrono::TimeDelta::days(interval.parse()?),
-            (true, 'H') => chrono::TimeDelta::hours(interval.parse()?),
-            (true, 'M') => chrono::TimeDelta::minutes(interval.parse()?),
-            (true, 'S') => chrono::TimeDelta::seconds(interval.parse()?),
+            (false, 'Y') => interval
+                .parse::<i64>()?
+                .checked_mul(365)
+                .and_then(chrono::TimeDelta::try_days),
+            (false, 'M') => interval
+                .parse::<i64>()?
+                .checked_mul(30)
+                .and_then(chrono::TimeDelta::try_days),
+            (false, 'D') => chrono::TimeDelta::try_days(interval.parse()?),
+            (true, 'H') => chrono::TimeDelta::try_hours(interval.parse()?),
+            (true, 'M') => chrono::TimeDelta::try_minutes(interval.parse()?),
+            (true, 'S') => chrono::TimeDelta::try_seconds(interval.parse()?),
             _ => {
                 return Err(crate::Error::ParseDuration(format!(
                     "Invalid duration: {interval}"
@@ -170,7 +176,11 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
             }
         };
 
-        duration += part;
+        duration = part
+            .and_then(|part| duration.checked_add(&part))
+            .ok_or_else(|| {
+                crate::Error::ParseDuration(format!("Duration out of range: {value}"))
+            })?;
     }
 
     if negative {
diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index 2d8f6e4..2cecb3c 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -4,7 +4,7 @@
 
 use nom::Parser as _;
 use nom::bytes::complete::tag;
-use nom::combinator::{map, map_res, opt};
+use nom::combinator::{map, map_opt, map_res, opt};
 use nom::error::{FromExternalError, context};
 use nom::sequence::{pair, preceded, terminated};
 
@@ -129,23 +129,21 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
 
     context(
         "duration",
-        map(
+        map_opt(
             pair(
                 opt(tag("-")),
                 preceded(tag("P"), (opt(week), opt(day), opt(time))),
             ),
             |(neg, (w, d, t))| {
-                let mut duration = chrono::Duration::weeks(w.unwrap_or_default())
-                    + chrono::Duration::days(d.unwrap_or_default());
+                let (h, i, s) = t.unwrap_or_default();
 
-                if let Some((h, i, s)) = t {
-                    duration = duration
-                        + chrono::Duration::hours(h)
-                        + chrono::Duration::minutes(i)
-                        + chrono::Duration::seconds(s);
-                }
+                let duration = chrono::Duration::try_weeks(w.unwrap_or_default())?
+                    .checked_add(&chrono::Duration::try_days(d.unwrap_or_default())?)?
+                    .checked_add(&chrono::Duration::try_hours(h)?)?
+                    .checked_add(&chrono::Duration::try_minutes(i)?)?
+                    .checked_add(&chrono::Duration::try_seconds(s)?)?;
 
-                if neg.is_some() { -duration } else { duration }
+                Some(if neg.is_some() { -duration } else { duration })
             },
         ),
     )
-- 
2.43.0


From d9d63737ede6201821cd8f28c9ee81e1b6d33ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 05/39] fix: don't mix up the parts of a duration in macros

The digits of a part were kept for the next one: PT1H30M was one hour and 130
minutes. Weeks were refused, and a number without unit was ignored.
---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9c1dfe1..27c37c7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -165,6 +165,7 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
                 .parse::<i64>()?
                 .checked_mul(30)
                 .and_then(chrono::TimeDelta::try_days),
+            (false, 'W') => chrono::TimeDelta::try_weeks(interval.parse()?),
             (false, 'D') => chrono::TimeDelta::try_days(interval.parse()?),
             (true, 'H') => chrono::TimeDelta::try_hours(interval.parse()?),
             (true, 'M') => chrono::TimeDelta::try_minutes(interval.parse()?),
@@ -181,6 +182,13 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
             .ok_or_else(|| {
                 crate::Error::ParseDuration(format!("Duration out of range: {value}"))
             })?;
+        interval.clear();
+    }
+
+    if !interval.is_empty() {
+        return Err(crate::Error::ParseDuration(format!(
+            "Invalid duration: {value}"
+        )));
     }
 
     if negative {
-- 
2.43.0


From 978ae8e7db48b6934d944156a3157f0985ceabb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 06/39] fix: accept a duration with an explicit plus sign

---
 src/lib.rs             | 2 ++
 src/parser/datatype.rs | 9 +++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 27c37c7..f689697 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -133,6 +133,8 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
 
     if it.next_if(|x| *x == '-').is_some() {
         negative = true;
+    } else {
+        it.next_if(|x| *x == '+');
     }
 
     if it.next_if(|x| *x == 'P').is_none() {
diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index 2cecb3c..e532e53 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -4,6 +4,7 @@
 
 use nom::Parser as _;
 use nom::bytes::complete::tag;
+use nom::character::complete::one_of;
 use nom::combinator::{map, map_opt, map_res, opt};
 use nom::error::{FromExternalError, context};
 use nom::sequence::{pair, preceded, terminated};
@@ -131,7 +132,7 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
         "duration",
         map_opt(
             pair(
-                opt(tag("-")),
+                opt(one_of("+-")),
                 preceded(tag("P"), (opt(week), opt(day), opt(time))),
             ),
             |(neg, (w, d, t))| {
@@ -143,7 +144,11 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
                     .checked_add(&chrono::Duration::try_minutes(i)?)?
                     .checked_add(&chrono::Duration::try_seconds(s)?)?;
 
-                Some(if neg.is_some() { -duration } else { duration })
+                Some(if neg == Some('-') {
+                    -duration
+                } else {
+                    duration
+                })
             },
         ),
     )
-- 
2.43.0


From b69a2f660fde2377f6c1fe03711f53bcdb23fa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 07/39] fix: don't ignore what follows a value

The end of a recurrence rule, a duration, a trigger, a position or a weekday was
silently dropped when it could not be parsed: FREQ=DAILY;;COUNT=3 was a rule
without end.
---
 src/parser/alarm.rs       |  6 +++---
 src/parser/datetime.rs    |  5 ++++-
 src/parser/descriptive.rs |  9 +++++----
 src/parser/recurrence.rs  |  4 ++--
 src/properties/recur.rs   | 10 ++++++++--
 5 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/parser/alarm.rs b/src/parser/alarm.rs
index fe8f3cc..6baaee1 100644
--- a/src/parser/alarm.rs
+++ b/src/parser/alarm.rs
@@ -22,12 +22,12 @@ pub(crate) fn repeat(input: crate::ContentLine) -> crate::Result<u32> {
 pub(crate) fn trigger(input: crate::ContentLine) -> crate::Result<crate::Trigger> {
     use nom::Parser as _;
     use nom::branch::alt;
-    use nom::combinator::map;
+    use nom::combinator::{all_consuming, map};
 
-    alt((
+    all_consuming(alt((
         map(super::datatype::duration, crate::Trigger::Duration),
         map(super::datatype::date_time, crate::Trigger::DateTime),
-    ))
+    )))
     .parse(input.value.as_str())
     .map_err(crate::Error::from)
     .map(|(_, x)| x)
diff --git a/src/parser/datetime.rs b/src/parser/datetime.rs
index 07566c5..8cb7fc0 100644
--- a/src/parser/datetime.rs
+++ b/src/parser/datetime.rs
@@ -42,7 +42,10 @@ pub(crate) fn dtstart(input: crate::ContentLine) -> crate::Result<crate::Date> {
  * See [3.8.2.5. Duration](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.2.5)
  */
 pub(crate) fn duration(input: crate::ContentLine) -> crate::Result<chrono::Duration> {
-    super::datatype::duration(&input.value)
+    use nom::Parser as _;
+
+    nom::combinator::all_consuming(super::datatype::duration)
+        .parse(input.value.as_str())
         .map_err(crate::Error::from)
         .map(|(_, x)| x)
 }
diff --git a/src/parser/descriptive.rs b/src/parser/descriptive.rs
index f8e884f..9bdc49d 100644
--- a/src/parser/descriptive.rs
+++ b/src/parser/descriptive.rs
@@ -43,13 +43,14 @@ pub(crate) fn description(input: crate::ContentLine) -> crate::Result<crate::Tex
 pub(crate) fn geo(input: crate::ContentLine) -> crate::Result<crate::Geo> {
     use nom::Parser as _;
     use nom::character::complete::char;
-    use nom::combinator::map;
+    use nom::combinator::{all_consuming, map};
     use nom::number::complete::float;
     use nom::sequence::separated_pair;
 
-    map(separated_pair(float, char(';'), float), |(lat, lon)| {
-        crate::Geo { lat, lon }
-    })
+    all_consuming(map(
+        separated_pair(float, char(';'), float),
+        |(lat, lon)| crate::Geo { lat, lon },
+    ))
     .parse(input.value.as_str())
     .map_err(crate::Error::from)
     .map(|(_, x)| x)
diff --git a/src/parser/recurrence.rs b/src/parser/recurrence.rs
index 855eb40..73c60a5 100644
--- a/src/parser/recurrence.rs
+++ b/src/parser/recurrence.rs
@@ -49,7 +49,7 @@ pub(crate) fn rrule(input: crate::ContentLine) -> crate::Result<crate::Recur> {
     use nom::Parser as _;
     use nom::bytes::complete::take_till;
     use nom::character::complete::char;
-    use nom::combinator::{map_res, opt};
+    use nom::combinator::{all_consuming, map_res, opt};
     use nom::error::context;
     use nom::multi::many1;
     use nom::sequence::{separated_pair, terminated};
@@ -79,7 +79,7 @@ pub(crate) fn rrule(input: crate::ContentLine) -> crate::Result<crate::Recur> {
 
     context(
         "rrule",
-        map_res(many1(item), |items| {
+        map_res(all_consuming(many1(item)), |items| {
             let map = items
                 .iter()
                 .map(|(k, v)| ((*k).to_string(), v))
diff --git a/src/properties/recur.rs b/src/properties/recur.rs
index c57147f..b712f27 100644
--- a/src/properties/recur.rs
+++ b/src/properties/recur.rs
@@ -227,7 +227,10 @@ impl std::str::FromStr for WeekdayNum {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        crate::parser::weekdaynum(s)
+        use nom::Parser as _;
+
+        nom::combinator::all_consuming(crate::parser::weekdaynum)
+            .parse(s)
             .map_err(crate::Error::from)
             .map(|(_, x)| x)
     }
@@ -276,7 +279,10 @@ impl std::str::FromStr for Weekday {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        crate::parser::weekday(s)
+        use nom::Parser as _;
+
+        nom::combinator::all_consuming(crate::parser::weekday)
+            .parse(s)
             .map_err(crate::Error::from)
             .map(|(_, x)| x)
     }
-- 
2.43.0


From 0baf18b76073b7f6609ddd8bb094d191cd1b3e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 08/39] fix: reject a malformed UTC offset

Anything could follow the minutes.
---
 src/parser/timezone.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser/timezone.rs b/src/parser/timezone.rs
index 3a6ce6b..7136e39 100644
--- a/src/parser/timezone.rs
+++ b/src/parser/timezone.rs
@@ -16,20 +16,28 @@ pub(crate) fn tzname(input: crate::ContentLine) -> crate::Result<crate::Text> {
     Ok(input.into())
 }
 
+fn utc_offset(input: &str) -> crate::Result<chrono::offset::FixedOffset> {
+    if !matches!(input.len(), 5 | 7) || !input.bytes().skip(1).all(|x| x.is_ascii_digit()) {
+        return Err(crate::Error::Parser(format!("Invalid UTC offset: {input}")));
+    }
+
+    input.parse().map_err(crate::Error::from)
+}
+
 /**
  * See [3.8.3.3. Time Zone Offset From](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.3.3)
  */
 pub(crate) fn tzoffsetfrom(
     input: crate::ContentLine,
 ) -> crate::Result<chrono::offset::FixedOffset> {
-    input.value.parse().map_err(crate::Error::from)
+    utc_offset(&input.value)
 }
 
 /**
  * See [3.8.3.4. Time Zone Offset To](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.3.4)
  */
 pub(crate) fn tzoffsetto(input: crate::ContentLine) -> crate::Result<chrono::offset::FixedOffset> {
-    input.value.parse().map_err(crate::Error::from)
+    utc_offset(&input.value)
 }
 
 /**
-- 
2.43.0


From df5e936cc3c3cea216f46d2e23093e8b8a3c6d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 09/39] fix: reject a date that isn't in basic format

chrono reads missing digits and white space: 2024111 was November 1st and any
number of Z was accepted.
---
 src/parser/datatype.rs | 28 +++++++++++++++-------------
 src/properties/date.rs | 42 +++++++++++++++++++++++++++++++++---------
 2 files changed, 48 insertions(+), 22 deletions(-)

diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index e532e53..df4a3b6 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -20,7 +20,7 @@ pub(crate) fn cal_address(input: &str) -> crate::Result<String> {
  * See [3.3.4. Date](https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.4)
  */
 pub(crate) fn date(input: &str) -> super::NomResult<&str, chrono::NaiveDate> {
-    let date = chrono::NaiveDate::parse_from_str(input, "%Y%m%d").map_err(|e| {
+    let date = crate::Date::parse_naive(input).map_err(|e| {
         nom::Err::Error(nom_language::error::VerboseError::from_external_error(
             input,
             nom::error::ErrorKind::Fail,
@@ -35,18 +35,20 @@ pub(crate) fn date(input: &str) -> super::NomResult<&str, chrono::NaiveDate> {
  * See [3.3.5. Date-Time](https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.5)
  */
 pub(crate) fn date_time(input: &str) -> super::NomResult<&str, crate::DateTime> {
-    let date = input.to_string();
-
-    let dt = chrono::NaiveDateTime::parse_from_str(date.trim_end_matches('Z'), "%Y%m%dT%H%M%S")
-        .map_err(|e| {
-            nom::Err::Error(nom_language::error::VerboseError::from_external_error(
-                input,
-                nom::error::ErrorKind::Fail,
-                e,
-            ))
-        })?;
-
-    if date.ends_with('Z') {
+    let (date, utc) = match input.strip_suffix('Z') {
+        Some(date) => (date, true),
+        None => (input, false),
+    };
+
+    let dt = crate::DateTime::parse_naive(date).map_err(|e| {
+        nom::Err::Error(nom_language::error::VerboseError::from_external_error(
+            input,
+            nom::error::ErrorKind::Fail,
+            e,
+        ))
+    })?;
+
+    if utc {
         Ok((
             "",
             crate::DateTime::Local(dt.and_utc().with_timezone(&chrono::Local)),
diff --git a/src/properties/date.rs b/src/properties/date.rs
index cd2c735..a5fc16f 100644
--- a/src/properties/date.rs
+++ b/src/properties/date.rs
@@ -5,6 +5,18 @@ pub enum DateTime {
 }
 
 impl DateTime {
+    pub(crate) fn parse_naive(s: &str) -> crate::Result<chrono::NaiveDateTime> {
+        let fmt = "%Y%m%dT%H%M%S";
+        let naive = chrono::NaiveDateTime::parse_from_str(s, fmt)?;
+
+        // chrono also accepts missing digits and white space
+        if naive.format(fmt).to_string() == s {
+            Ok(naive)
+        } else {
+            Err(crate::Error::Parser(format!("Invalid date-time: {s}")))
+        }
+    }
+
     #[must_use]
     pub fn date_naive(&self) -> chrono::NaiveDate {
         match self {
@@ -111,15 +123,15 @@ impl std::str::FromStr for DateTime {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        if let Ok(naive) = chrono::NaiveDateTime::parse_from_str(s, "%Y%m%dT%H%M%S") {
-            Ok(Self::Naive(naive))
-        } else {
-            let naive = chrono::NaiveDateTime::parse_from_str(s, "%Y%m%dT%H%M%SZ")?;
+        let Some(date) = s.strip_suffix('Z') else {
+            return Self::parse_naive(s).map(Self::Naive);
+        };
 
-            Ok(Self::Local(
-                naive.and_local_timezone(chrono::Local).unwrap(),
-            ))
-        }
+        let naive = Self::parse_naive(date)?;
+
+        Ok(Self::Local(
+            naive.and_local_timezone(chrono::Local).unwrap(),
+        ))
     }
 }
 
@@ -155,6 +167,18 @@ pub enum Date {
 }
 
 impl Date {
+    pub(crate) fn parse_naive(s: &str) -> crate::Result<chrono::NaiveDate> {
+        let fmt = "%Y%m%d";
+        let date = chrono::NaiveDate::parse_from_str(s, fmt)?;
+
+        // chrono also accepts missing digits and white space
+        if date.format(fmt).to_string() == s {
+            Ok(date)
+        } else {
+            Err(crate::Error::Parser(format!("Invalid date: {s}")))
+        }
+    }
+
     #[must_use]
     pub fn date_naive(&self) -> chrono::NaiveDate {
         match self {
@@ -190,7 +214,7 @@ impl std::str::FromStr for Date {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        if let Ok(date) = chrono::NaiveDate::parse_from_str(s, "%Y%m%d") {
+        if let Ok(date) = Self::parse_naive(s) {
             return Ok(Self::Date(date));
         }
 
-- 
2.43.0


From 30eb174226f3ebd45170ae95f8b947f85e79bb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 10/39] fix: don't panic on a local time skipped or repeated by
 daylight saving

---
 src/properties/date.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/properties/date.rs b/src/properties/date.rs
index a5fc16f..6a551a1 100644
--- a/src/properties/date.rs
+++ b/src/properties/date.rs
@@ -129,9 +129,11 @@ impl std::str::FromStr for DateTime {
 
         let naive = Self::parse_naive(date)?;
 
-        Ok(Self::Local(
-            naive.and_local_timezone(chrono::Local).unwrap(),
-        ))
+        naive
+            .and_local_timezone(chrono::Local)
+            .earliest()
+            .map(Self::Local)
+            .ok_or(crate::Error::Local(Self::Naive(naive)))
     }
 }
 
-- 
2.43.0


From dc14e26951233e0e196b86a4a80c0a4a34b15f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 11/39] fix: don't look for the end of a parameter in the
 following lines

A line without value swallowed the next one:

    DTSTART;VALUE=DATE
    SUMMARY:x
---
 src/parser/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 971907a..bd92a09 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -64,7 +64,10 @@ fn key(input: &str) -> NomResult<&str, &str> {
 fn attr(input: &str) -> NomResult<&str, &str> {
     context(
         "attr",
-        preceded(opt(tag("\r\n ")), take_till(|c| c == ';' || c == ':')),
+        preceded(
+            not(char('"')),
+            take_till(|c| c == ';' || c == ':' || is_line_ending(c)),
+        ),
     )
     .parse(input)
 }
@@ -80,7 +83,11 @@ fn quote(chr: char) -> bool {
 fn quoted_param(input: &str) -> NomResult<&str, (&str, &str)> {
     context(
         "quoted_param",
-        separated_pair(key, tag("=\""), take_till(quote)),
+        separated_pair(
+            key,
+            tag("=\""),
+            take_till(|c| quote(c) || is_line_ending(c)),
+        ),
     )
     .parse(input)
 }
-- 
2.43.0


From a45ab2e84f1ff9a5081af80a5e6267c7a409ce7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 12/39] fix: reject a property or parameter without name

---
 src/parser/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index bd92a09..d2f0cc8 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -23,7 +23,7 @@ pub(crate) use relationship::*;
 pub(crate) use timezone::*;
 
 use nom::Parser as _;
-use nom::bytes::complete::{tag, take_till, take_while};
+use nom::bytes::complete::{tag, take_till, take_while, take_while1};
 use nom::character::complete::{anychar, char, line_ending};
 use nom::combinator::{map, map_res, not, opt};
 use nom::error::context;
@@ -58,7 +58,7 @@ fn digits(input: &str) -> NomResult<&str, &str> {
 }
 
 fn key(input: &str) -> NomResult<&str, &str> {
-    context("key", take_while(is_alphanumeric)).parse(input)
+    context("key", take_while1(is_alphanumeric)).parse(input)
 }
 
 fn attr(input: &str) -> NomResult<&str, &str> {
-- 
2.43.0


From 0b039f3925aeeb083cf7b461727888bff97d8b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 13/39] fix: unfold the lines continued with a tab

---
 derive/src/component.rs  |  2 +-
 src/components/valarm.rs |  2 +-
 src/parser/mod.rs        | 19 +++++++++++++++++++
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index 6215028..a310083 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -148,7 +148,7 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
             type Err = crate::Error;
 
             fn from_str(s: &str) -> Result<Self, Self::Err> {
-                crate::parser::#parser(&s.replace("\r\n ", ""))
+                crate::parser::#parser(&crate::parser::unfold(s))
                     .map_err(crate::Error::from)
                     .map(|(_, x)| x)
             }
diff --git a/src/components/valarm.rs b/src/components/valarm.rs
index 5d0e281..225e31c 100644
--- a/src/components/valarm.rs
+++ b/src/components/valarm.rs
@@ -49,7 +49,7 @@ impl std::str::FromStr for VAlarm {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        crate::parser::valarm(&s.replace("\r\n ", ""))
+        crate::parser::valarm(&crate::parser::unfold(s))
             .map_err(crate::Error::from)
             .map(|(_, x)| x)
     }
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index d2f0cc8..1831cbe 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -33,6 +33,25 @@ use std::collections::BTreeMap;
 
 pub(crate) type NomResult<I, O> = nom::IResult<I, O, nom_language::error::VerboseError<I>>;
 
+/**
+ * Joins the folded lines.
+ */
+pub(crate) fn unfold(input: &str) -> String {
+    let mut lines = input.split("\r\n");
+    let mut output = lines.next().unwrap_or_default().to_string();
+
+    for line in lines {
+        if let Some(line) = line.strip_prefix([' ', '\t']) {
+            output.push_str(line);
+        } else {
+            output.push_str("\r\n");
+            output.push_str(line);
+        }
+    }
+
+    output
+}
+
 fn is_alphabetic(chr: char) -> bool {
     nom::AsChar::is_alpha(chr)
 }
-- 
2.43.0


From 04618f449ec9a2ba921ee8fbbc561c45ec0a47c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 14/39] fix: don't split categories and resources on an escaped
 comma

---
 src/parser/descriptive.rs |  8 ++++++--
 src/parser/mod.rs         | 13 +++++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/parser/descriptive.rs b/src/parser/descriptive.rs
index 9bdc49d..083b387 100644
--- a/src/parser/descriptive.rs
+++ b/src/parser/descriptive.rs
@@ -13,7 +13,9 @@ pub(crate) fn attach(input: crate::ContentLine) -> crate::Result<crate::Text> {
  * See [3.8.1.2. Categories](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.1.2)
  */
 pub(crate) fn categories(input: crate::ContentLine) -> crate::Result<Vec<crate::Text>> {
-    Ok(input.value.split(',').map(crate::Text::from).collect())
+    Ok(super::split_escaped(&input.value, ',')
+        .map(crate::Text::from)
+        .collect())
 }
 
 /**
@@ -87,7 +89,9 @@ pub(crate) fn priority(input: crate::ContentLine) -> crate::Result<u8> {
  * See [3.8.1.10. Resources](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.1.10)
  */
 pub(crate) fn resources(input: crate::ContentLine) -> crate::Result<Vec<crate::Text>> {
-    Ok(input.value.split(',').map(crate::Text::from).collect())
+    Ok(super::split_escaped(&input.value, ',')
+        .map(crate::Text::from)
+        .collect())
 }
 
 /**
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 1831cbe..6439b37 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -52,6 +52,19 @@ pub(crate) fn unfold(input: &str) -> String {
     output
 }
 
+/**
+ * Splits on the separators that aren't escaped.
+ */
+fn split_escaped(input: &str, sep: char) -> impl Iterator<Item = &str> {
+    let mut escaped = false;
+
+    input.split(move |c| {
+        let is_sep = c == sep && !escaped;
+        escaped = c == '\\' && !escaped;
+        is_sep
+    })
+}
+
 fn is_alphabetic(chr: char) -> bool {
     nom::AsChar::is_alpha(chr)
 }
-- 
2.43.0


From 60e4cf515c5ec85d1e41c14a904a8d5d0d7ccb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 15/39] fix: keep the parameters of categories and resources

---
 src/parser/descriptive.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/descriptive.rs b/src/parser/descriptive.rs
index 083b387..bd50b10 100644
--- a/src/parser/descriptive.rs
+++ b/src/parser/descriptive.rs
@@ -14,7 +14,10 @@ pub(crate) fn attach(input: crate::ContentLine) -> crate::Result<crate::Text> {
  */
 pub(crate) fn categories(input: crate::ContentLine) -> crate::Result<Vec<crate::Text>> {
     Ok(super::split_escaped(&input.value, ',')
-        .map(crate::Text::from)
+        .map(|text| crate::Text {
+            params: input.params.clone(),
+            text: text.to_string(),
+        })
         .collect())
 }
 
@@ -90,7 +93,10 @@ pub(crate) fn priority(input: crate::ContentLine) -> crate::Result<u8> {
  */
 pub(crate) fn resources(input: crate::ContentLine) -> crate::Result<Vec<crate::Text>> {
     Ok(super::split_escaped(&input.value, ',')
-        .map(crate::Text::from)
+        .map(|text| crate::Text {
+            params: input.params.clone(),
+            text: text.to_string(),
+        })
         .collect())
 }
 
-- 
2.43.0


From 09a9b3277490f3d24b0f811c5748475ae50321a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 16/39] fix: don't split a request status on an escaped
 semicolon

---
 src/parser/misc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/misc.rs b/src/parser/misc.rs
index c239b5d..0814451 100644
--- a/src/parser/misc.rs
+++ b/src/parser/misc.rs
@@ -7,7 +7,7 @@
  */
 pub(crate) fn rstatus(input: crate::ContentLine) -> crate::Result<crate::RequestStatus> {
     use nom::Parser as _;
-    use nom::bytes::complete::{take_till, take_while};
+    use nom::bytes::complete::take_while;
     use nom::character::complete::char;
     use nom::combinator::{map, opt};
     use nom::error::context;
@@ -15,7 +15,9 @@ pub(crate) fn rstatus(input: crate::ContentLine) -> crate::Result<crate::Request
     use nom::sequence::preceded;
 
     fn text(input: &str) -> super::NomResult<&str, &str> {
-        context("text", take_till(|c| c == ';')).parse(input)
+        let text = super::split_escaped(input, ';').next().unwrap_or_default();
+
+        Ok((&input[text.len()..], text))
     }
 
     fn end(input: &str) -> super::NomResult<&str, &str> {
-- 
2.43.0


From 0ad6d8ea15190ae8153418579ad5d47f0e484441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 17/39] fix: don't fold a line inside a character or its line
 break

A long line with non-ASCII characters panicked.
---
 src/ser.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index f5fc486..664d3fc 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -142,12 +142,12 @@ pub(crate) fn field<S: Serialize>(name: &str, value: &S) -> crate::Result<String
             }
             s.push(':');
             s.push_str(&ical);
-            s.push_str("\r\n");
-        }
 
-        if s.len() > 75 {
-            let lines = split(&s, 75);
-            s = lines.join("\r\n ");
+            if s.len() > 75 {
+                let lines = split(&s, 75);
+                s = lines.join("\r\n ");
+            }
+            s.push_str("\r\n");
         }
     }
 
@@ -159,7 +159,12 @@ fn split(s: &str, sub_size: usize) -> Vec<&str> {
     let mut cur = s;
 
     while !cur.is_empty() {
-        let (chunk, rest) = cur.split_at(std::cmp::min(sub_size, cur.len()));
+        let mut size = std::cmp::min(sub_size, cur.len());
+        while !cur.is_char_boundary(size) {
+            size -= 1;
+        }
+
+        let (chunk, rest) = cur.split_at(size);
         v.push(chunk);
         cur = rest;
     }
-- 
2.43.0


From 4ba5fcf080d05378648c85bd52af59a38ecf4179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 18/39] fix: serialize each item of a list that isn't a comma
 list

Several comments were merged in one, two nested components gave garbage, as did
a single alarm. The parameters of the items were lost.
---
 derive/src/component.rs  | 7 +++----
 src/components/valarm.rs | 4 ++++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index a310083..86ddd39 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -42,12 +42,11 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
             .to_uppercase()
             .replace('_', "-");
 
+        let append = field_params.append;
+
         let ser_part = if crate::is_vec(ty) {
             quote::quote! {
-                if self.#name.len() == 1 {
-                    s.push_str(&crate::ser::field(#field_name, &self.#name[0])?);
-                }
-                else if self.#name.attr().is_none() {
+                if #append && self.#name.iter().all(|v| v.attr().is_none()) {
                     s.push_str(&crate::ser::field(#field_name, &self.#name)?);
                 } else {
                     for v in &self.#name {
diff --git a/src/components/valarm.rs b/src/components/valarm.rs
index 225e31c..8aeed04 100644
--- a/src/components/valarm.rs
+++ b/src/components/valarm.rs
@@ -56,6 +56,10 @@ impl std::str::FromStr for VAlarm {
 }
 
 impl crate::ser::Serialize for VAlarm {
+    fn component() -> Option<String> {
+        Some("VALARM".to_string())
+    }
+
     fn ical(&self) -> crate::Result<String> {
         let s = match self {
             Self::Audio(audio) => audio.ical(),
-- 
2.43.0


From fb9f056f56a83e798898e0d4fd5321a72d221c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 19/39] fix: serialize the extension properties under their own
 name

---
 derive/src/component.rs | 6 ++++++
 derive/src/lib.rs       | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index 86ddd39..4f798d9 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -54,6 +54,12 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
                     }
                 }
             }
+        } else if crate::is_map(ty) {
+            quote::quote! {
+                for (k, v) in &self.#name {
+                    s.push_str(&crate::ser::field(k, v)?);
+                }
+            }
         } else {
             quote::quote! {
                 s.push_str(&crate::ser::field(#field_name, &self.#name)?);
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index 4732cea..d31ca7f 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -52,6 +52,10 @@ fn is_vec(ty: &syn::Type) -> bool {
     tyname(ty) == "Vec"
 }
 
+fn is_map(ty: &syn::Type) -> bool {
+    tyname(ty).ends_with("BTreeMap")
+}
+
 fn tyname(ty: &syn::Type) -> String {
     let syn::Type::Path(typepath) = ty else {
         return String::new();
-- 
2.43.0


From 51c6d58678e2977ffafc214c422c6d72d970fe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 20/39] fix: don't escape URI and extension properties as text

---
 src/content_line.rs   | 2 +-
 src/properties/uri.rs | 2 +-
 src/ser.rs            | 8 +++++---
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/content_line.rs b/src/content_line.rs
index 80d74ce..ca9d23a 100644
--- a/src/content_line.rs
+++ b/src/content_line.rs
@@ -55,7 +55,7 @@ impl std::fmt::Display for ContentLine {
 
 impl crate::ser::Serialize for ContentLine {
     fn ical(&self) -> crate::Result<String> {
-        self.to_string().ical()
+        Ok(crate::ser::escape_newline(&self.value))
     }
 
     fn attr(&self) -> Option<String> {
diff --git a/src/properties/uri.rs b/src/properties/uri.rs
index 78386de..505aa2b 100644
--- a/src/properties/uri.rs
+++ b/src/properties/uri.rs
@@ -52,7 +52,7 @@ impl From<&str> for Uri {
 
 impl crate::ser::Serialize for Uri {
     fn ical(&self) -> crate::Result<String> {
-        self.to_string().ical()
+        Ok(crate::ser::escape_newline(&self.uri))
     }
 
     fn attr(&self) -> Option<String> {
diff --git a/src/ser.rs b/src/ser.rs
index 664d3fc..c06fb37 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -120,9 +120,11 @@ impl<K: ToString, V: Serialize> Serialize for std::collections::BTreeMap<K, V> {
 }
 
 pub(crate) fn escape(s: &str) -> String {
-    s.replace(';', "\\;")
-        .replace(',', "\\,")
-        .replace('\n', "\\n")
+    escape_newline(&s.replace(';', "\\;").replace(',', "\\,"))
+}
+
+pub(crate) fn escape_newline(s: &str) -> String {
+    s.replace('\n', "\\n")
 }
 
 pub(crate) fn field<S: Serialize>(name: &str, value: &S) -> crate::Result<String> {
-- 
2.43.0


From bd8aea560060513712e0bdbf2fad8e6817c5a11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 21/39] fix: escape all line breaks

A carriage return, or a line feed in a custom class, broke the content line.
---
 src/properties/class.rs | 6 +++++-
 src/ser.rs              | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/properties/class.rs b/src/properties/class.rs
index ea17c28..8271e35 100644
--- a/src/properties/class.rs
+++ b/src/properties/class.rs
@@ -54,7 +54,11 @@ impl std::fmt::Display for Class {
     }
 }
 
-crate::ser::ical_for_tostring!(Class);
+impl crate::ser::Serialize for Class {
+    fn ical(&self) -> crate::Result<String> {
+        Ok(crate::ser::escape_newline(&self.to_string()))
+    }
+}
 
 #[cfg(test)]
 mod test {
diff --git a/src/ser.rs b/src/ser.rs
index c06fb37..3bc4356 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -124,7 +124,7 @@ pub(crate) fn escape(s: &str) -> String {
 }
 
 pub(crate) fn escape_newline(s: &str) -> String {
-    s.replace('\n', "\\n")
+    s.replace("\r\n", "\\n").replace(['\r', '\n'], "\\n")
 }
 
 pub(crate) fn field<S: Serialize>(name: &str, value: &S) -> crate::Result<String> {
-- 
2.43.0


From 92a0e77382bd125a2dbdaf895d5fd0c62dbddd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 22/39] fix: don't escape a text twice

The parser keeps the texts escaped, so each parsing then serialization added a
level of backslashes.
---
 src/ser.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/ser.rs b/src/ser.rs
index 3bc4356..1eda4ea 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -120,7 +120,26 @@ impl<K: ToString, V: Serialize> Serialize for std::collections::BTreeMap<K, V> {
 }
 
 pub(crate) fn escape(s: &str) -> String {
-    escape_newline(&s.replace(';', "\\;").replace(',', "\\,"))
+    let mut escaped = String::with_capacity(s.len());
+    let mut chars = s.chars().peekable();
+
+    while let Some(c) = chars.next() {
+        match c {
+            // The parsed texts are kept escaped
+            '\\' => {
+                let next = chars.next_if(|x| matches!(x, '\\' | ';' | ',' | 'n' | 'N'));
+                escaped.push('\\');
+                escaped.push(next.unwrap_or('\\'));
+            }
+            ';' | ',' => {
+                escaped.push('\\');
+                escaped.push(c);
+            }
+            _ => escaped.push(c),
+        }
+    }
+
+    escape_newline(&escaped)
 }
 
 pub(crate) fn escape_newline(s: &str) -> String {
-- 
2.43.0


From 72d73ccd1ab94236d1d48ec81911b174cb77e2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 23/39] fix: quote the parameter values that need it

A parameter value isn't a text: it can't be escaped, but must be quoted when it
contains a separator.
---
 src/ser.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index 1eda4ea..f007ccc 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -103,14 +103,14 @@ impl<T: Serialize> Serialize for Option<T> {
     }
 }
 
-impl<K: ToString, V: Serialize> Serialize for std::collections::BTreeMap<K, V> {
+impl<K: ToString, V: AsRef<str>> Serialize for std::collections::BTreeMap<K, V> {
     fn ical(&self) -> crate::Result<String> {
         let mut s = String::new();
 
         for (k, v) in self {
             s.push_str(&k.to_string());
             s.push('=');
-            s.push_str(&v.ical()?);
+            s.push_str(&param_value(v.as_ref()));
             s.push(';');
         }
         s.pop();
@@ -119,6 +119,16 @@ impl<K: ToString, V: Serialize> Serialize for std::collections::BTreeMap<K, V> {
     }
 }
 
+fn param_value(s: &str) -> String {
+    let s = escape_newline(&s.replace('"', "'"));
+
+    if s.contains([';', ':', ',']) {
+        format!("\"{s}\"")
+    } else {
+        s
+    }
+}
+
 pub(crate) fn escape(s: &str) -> String {
     let mut escaped = String::with_capacity(s.len());
     let mut chars = s.chars().peekable();
-- 
2.43.0


From d9025798c5e0418edf41b8f41d168eac35894e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 24/39] fix: serialize the empty texts

An empty UID was omitted, and the component refused when parsed back.
---
 derive/src/component.rs | 12 ++++++++++--
 src/ser.rs              | 24 +++++++++++-------------
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index 4f798d9..e69a3d6 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -44,10 +44,18 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
 
         let append = field_params.append;
 
-        let ser_part = if crate::is_vec(ty) {
+        let ser_part = if crate::is_option(ty) {
+            quote::quote! {
+                if let Some(v) = &self.#name {
+                    s.push_str(&crate::ser::field(#field_name, v)?);
+                }
+            }
+        } else if crate::is_vec(ty) {
             quote::quote! {
                 if #append && self.#name.iter().all(|v| v.attr().is_none()) {
-                    s.push_str(&crate::ser::field(#field_name, &self.#name)?);
+                    if !self.#name.is_empty() {
+                        s.push_str(&crate::ser::field(#field_name, &self.#name)?);
+                    }
                 } else {
                     for v in &self.#name {
                         s.push_str(&crate::ser::field(#field_name, v)?);
diff --git a/src/ser.rs b/src/ser.rs
index f007ccc..523032f 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -164,22 +164,20 @@ pub(crate) fn field<S: Serialize>(name: &str, value: &S) -> crate::Result<String
     if S::component().is_some() {
         s.push_str(&ical);
     } else {
-        if !ical.is_empty() {
-            s.push_str(name);
+        s.push_str(name);
 
-            if let Some(attr) = value.attr() {
-                s.push(';');
-                s.push_str(&attr);
-            }
-            s.push(':');
-            s.push_str(&ical);
+        if let Some(attr) = value.attr() {
+            s.push(';');
+            s.push_str(&attr);
+        }
+        s.push(':');
+        s.push_str(&ical);
 
-            if s.len() > 75 {
-                let lines = split(&s, 75);
-                s = lines.join("\r\n ");
-            }
-            s.push_str("\r\n");
+        if s.len() > 75 {
+            let lines = split(&s, 75);
+            s = lines.join("\r\n ");
         }
+        s.push_str("\r\n");
     }
 
     Ok(s)
-- 
2.43.0


From c908bd6dcbdf16384b04327859ed2c06c1acdfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 25/39] fix: serialize the type of a recurrence date as a
 parameter

RDATE:VALUE=DATE:19970101 can't be parsed back.
---
 src/properties/rdate.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/properties/rdate.rs b/src/properties/rdate.rs
index bc9a5bd..36e84fc 100644
--- a/src/properties/rdate.rs
+++ b/src/properties/rdate.rs
@@ -41,7 +41,22 @@ impl std::fmt::Display for RDate {
     }
 }
 
-crate::ser::ical_for_tostring!(RDate);
+impl crate::ser::Serialize for RDate {
+    fn attr(&self) -> Option<String> {
+        match self {
+            Self::Date(dates) if dates.iter().any(crate::Date::has_time) => None,
+            Self::Date(_) => Some("VALUE=DATE".to_string()),
+            Self::Period(_) => Some("VALUE=PERIOD".to_string()),
+        }
+    }
+
+    fn ical(&self) -> crate::Result<String> {
+        match self {
+            Self::Date(dates) => dates.ical(),
+            Self::Period(periods) => periods.ical(),
+        }
+    }
+}
 
 #[cfg(test)]
 mod test {
-- 
2.43.0


From 07e643876f408c5cf45fbe4b83a77c3fa5917545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 26/39] fix: don't round the code of a request status

---
 src/properties/request_status.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/properties/request_status.rs b/src/properties/request_status.rs
index 0db41bd..851e4de 100644
--- a/src/properties/request_status.rs
+++ b/src/properties/request_status.rs
@@ -34,11 +34,7 @@ impl std::str::FromStr for RequestStatus {
 
 impl crate::ser::Serialize for RequestStatus {
     fn ical(&self) -> crate::Result<String> {
-        let mut s = format!(
-            "{:.1};{}",
-            self.statcode,
-            crate::ser::escape(&self.statdesc)
-        );
+        let mut s = format!("{:?};{}", self.statcode, crate::ser::escape(&self.statdesc));
 
         if let Some(extdata) = &self.extdata {
             s.push(';');
-- 
2.43.0


From a9dd939843350d7bec5980b884d94e0697ca8fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 27/39] fix: name the request status property REQUEST-STATUS

It was read and written as RSTATUS, its name in the grammar of RFC 5545.
---
 derive/src/component.rs     | 15 +++++++++------
 src/components/vevent.rs    |  1 +
 src/components/vfreebusy.rs |  1 +
 src/components/vjournal.rs  |  1 +
 src/components/vtodo.rs     |  1 +
 5 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index e69a3d6..19fe797 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -8,6 +8,8 @@ pub(crate) struct Field {
     pub append: bool,
     #[darling(default)]
     pub ignore: bool,
+    #[darling(default)]
+    pub rename: Option<String>,
 }
 
 pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::TokenStream> {
@@ -35,12 +37,13 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
         let ty = &field.ty;
         let field_params = Field::from_field(field)?;
 
-        let field_name = name
-            .as_ref()
-            .unwrap()
-            .to_string()
-            .to_uppercase()
-            .replace('_', "-");
+        let field_name = field_params.rename.clone().unwrap_or_else(|| {
+            name.as_ref()
+                .unwrap()
+                .to_string()
+                .to_uppercase()
+                .replace('_', "-")
+        });
 
         let append = field_params.append;
 
diff --git a/src/components/vevent.rs b/src/components/vevent.rs
index 3e9b1c9..abbe406 100644
--- a/src/components/vevent.rs
+++ b/src/components/vevent.rs
@@ -31,6 +31,7 @@ pub struct VEvent {
     pub contact: Vec<crate::Text>,
     #[component(append)]
     pub exdate: Vec<crate::Date>,
+    #[component(rename = "REQUEST-STATUS")]
     pub rstatus: Vec<crate::RequestStatus>,
     pub related_to: Vec<crate::Text>,
     #[component(append)]
diff --git a/src/components/vfreebusy.rs b/src/components/vfreebusy.rs
index 3057da6..4385772 100644
--- a/src/components/vfreebusy.rs
+++ b/src/components/vfreebusy.rs
@@ -14,6 +14,7 @@ pub struct VFreebusy {
     pub comment: Vec<crate::Text>,
     #[component(append)]
     pub freebusy: Vec<crate::Period>,
+    #[component(rename = "REQUEST-STATUS")]
     pub rstatus: Vec<crate::RequestStatus>,
     #[component(ignore)]
     pub x_prop: std::collections::BTreeMap<String, crate::ContentLine>,
diff --git a/src/components/vjournal.rs b/src/components/vjournal.rs
index 0d07251..214d0e0 100644
--- a/src/components/vjournal.rs
+++ b/src/components/vjournal.rs
@@ -27,6 +27,7 @@ pub struct VJournal {
     pub exdate: Vec<crate::Date>,
     pub related_to: Vec<crate::Text>,
     pub rdate: Vec<crate::RDate>,
+    #[component(rename = "REQUEST-STATUS")]
     pub rstatus: Vec<crate::RequestStatus>,
     #[component(ignore)]
     pub x_prop: std::collections::BTreeMap<String, crate::ContentLine>,
diff --git a/src/components/vtodo.rs b/src/components/vtodo.rs
index 84a9cbd..9b867cb 100644
--- a/src/components/vtodo.rs
+++ b/src/components/vtodo.rs
@@ -31,6 +31,7 @@ pub struct VTodo {
     pub contact: Vec<crate::Text>,
     #[component(append)]
     pub exdate: Vec<crate::Date>,
+    #[component(rename = "REQUEST-STATUS")]
     pub rstatus: Vec<crate::RequestStatus>,
     pub related_to: Vec<crate::Text>,
     #[component(append)]
-- 
2.43.0


From 479741b42777a903e03ae60fd90dad51a90cec56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 28/39] fix: skip the nonexistent dates of a recurrence

A monthly or yearly rule starting on the 29, 30 or 31 drifted to a shorter
month for good, or panicked on february 29 and on the local times skipped or
repeated by daylight saving.
---
 src/properties/recur.rs | 139 ++++++++++++++++++++++++++++------------
 1 file changed, 99 insertions(+), 40 deletions(-)

diff --git a/src/properties/recur.rs b/src/properties/recur.rs
index b712f27..f8a23dc 100644
--- a/src/properties/recur.rs
+++ b/src/properties/recur.rs
@@ -54,37 +54,116 @@ impl std::str::FromStr for Recur {
     }
 }
 
-impl std::ops::Add<crate::Date> for crate::Recur {
-    type Output = crate::Date;
-
-    fn add(self, rhs: crate::Date) -> Self::Output {
-        match rhs {
+impl Recur {
+    /**
+     * Returns the next date of the rule after `date`, or `None` if it’s out of range.
+     */
+    pub(crate) fn checked_next(&self, date: crate::Date) -> Option<crate::Date> {
+        let next = match date {
             crate::Date::Date(date) => {
                 if self.freq >= Freq::Daily {
-                    crate::Date::Date(self + date)
+                    crate::Date::Date(self.next_date(date)?)
                 } else {
-                    crate::DateTime::Naive(self + date.and_hms_opt(0, 0, 0).unwrap()).into()
+                    crate::DateTime::Naive(self.next_naive(date.and_hms_opt(0, 0, 0)?)?).into()
                 }
             }
-            crate::Date::DateTime(dt) => (self + dt).into(),
+            crate::Date::DateTime(crate::DateTime::Naive(date)) => {
+                crate::DateTime::Naive(self.next_naive(date)?).into()
+            }
+            crate::Date::DateTime(crate::DateTime::Local(date)) => {
+                crate::DateTime::Local(self.next_local(date)?).into()
+            }
+        };
+
+        Some(next)
+    }
+
+    fn next_date(&self, date: chrono::NaiveDate) -> Option<chrono::NaiveDate> {
+        match self.step() {
+            Step::Time(delta) => date.checked_add_signed(delta),
+            Step::Months(interval) => months(date, interval).next(),
+        }
+    }
+
+    fn next_naive(&self, date: chrono::NaiveDateTime) -> Option<chrono::NaiveDateTime> {
+        match self.step() {
+            Step::Time(delta) => date.checked_add_signed(delta),
+            Step::Months(interval) => months(date.date(), interval)
+                .next()
+                .map(|x| x.and_time(date.time())),
+        }
+    }
+
+    fn next_local(
+        &self,
+        date: chrono::DateTime<chrono::Local>,
+    ) -> Option<chrono::DateTime<chrono::Local>> {
+        let next = match self.step() {
+            Step::Time(delta) => date.checked_add_signed(delta),
+            Step::Months(interval) => months(date.date_naive(), interval).find_map(|x| {
+                x.and_time(date.time())
+                    .and_local_timezone(chrono::Local)
+                    .earliest()
+            }),
+        }?;
+
+        next.naive_utc().checked_add_offset(*next.offset())?;
+
+        Some(next)
+    }
+
+    fn step(&self) -> Step {
+        let interval = self.interval;
+
+        match self.freq {
+            Freq::Secondly => Step::Time(chrono::TimeDelta::seconds(interval.into())),
+            Freq::Minutely => Step::Time(chrono::TimeDelta::minutes(interval.into())),
+            Freq::Hourly => Step::Time(chrono::TimeDelta::hours(interval.into())),
+            Freq::Daily => Step::Time(chrono::TimeDelta::days(interval.into())),
+            Freq::Weekly => Step::Time(chrono::TimeDelta::weeks(interval.into())),
+            Freq::Monthly => Step::Months(interval.into()),
+            Freq::Yearly => Step::Months(12 * u32::from(interval)),
         }
     }
 }
+
+enum Step {
+    Time(chrono::TimeDelta),
+    Months(u32),
+}
+
+/**
+ * The dates every `interval` months after `date`, the nonexistent ones (like a february 30) are
+ * skipped.
+ */
+fn months(date: chrono::NaiveDate, interval: u32) -> impl Iterator<Item = chrono::NaiveDate> {
+    let day = date.day();
+    let mut month = date.with_day(1);
+
+    std::iter::from_fn(move || {
+        month = month?.checked_add_months(chrono::Months::new(interval));
+        month
+    })
+    .filter_map(move |x| x.with_day(day))
+}
+
+impl std::ops::Add<crate::Date> for crate::Recur {
+    type Output = crate::Date;
+
+    fn add(self, rhs: crate::Date) -> Self::Output {
+        self.checked_next(rhs).expect("date out of range")
+    }
+}
+
 impl std::ops::Add<chrono::NaiveDate> for crate::Recur {
     type Output = chrono::NaiveDate;
 
     fn add(self, rhs: chrono::NaiveDate) -> Self::Output {
-        let interval = match self.freq {
-            Freq::Secondly => return rhs,
-            Freq::Minutely => return rhs,
-            Freq::Hourly => return rhs,
-            Freq::Daily => chrono::TimeDelta::days(self.interval.into()),
-            Freq::Weekly => chrono::TimeDelta::weeks(self.interval.into()),
-            Freq::Monthly => return rhs + chrono::Months::new(self.interval.into()),
-            Freq::Yearly => return rhs.with_year(rhs.year() + self.interval as i32).unwrap(),
-        };
+        if self.freq < Freq::Daily {
+            return rhs;
+        }
 
-        rhs + interval
+        self.next_date(rhs).expect("date out of range")
     }
 }
 
@@ -103,17 +182,7 @@ impl std::ops::Add<chrono::DateTime<chrono::Local>> for crate::Recur {
     type Output = chrono::DateTime<chrono::Local>;
 
     fn add(self, rhs: chrono::DateTime<chrono::Local>) -> Self::Output {
-        let interval = match self.freq {
-            Freq::Secondly => chrono::TimeDelta::seconds(self.interval.into()),
-            Freq::Minutely => chrono::TimeDelta::minutes(self.interval.into()),
-            Freq::Hourly => chrono::TimeDelta::hours(self.interval.into()),
-            Freq::Daily => chrono::TimeDelta::days(self.interval.into()),
-            Freq::Weekly => chrono::TimeDelta::weeks(self.interval.into()),
-            Freq::Monthly => return rhs + chrono::Months::new(self.interval.into()),
-            Freq::Yearly => return rhs.with_year(rhs.year() + self.interval as i32).unwrap(),
-        };
-
-        rhs + interval
+        self.next_local(rhs).expect("date out of range")
     }
 }
 
@@ -121,17 +190,7 @@ impl std::ops::Add<chrono::NaiveDateTime> for crate::Recur {
     type Output = chrono::NaiveDateTime;
 
     fn add(self, rhs: chrono::NaiveDateTime) -> Self::Output {
-        let interval = match self.freq {
-            Freq::Secondly => chrono::TimeDelta::seconds(self.interval.into()),
-            Freq::Minutely => chrono::TimeDelta::minutes(self.interval.into()),
-            Freq::Hourly => chrono::TimeDelta::hours(self.interval.into()),
-            Freq::Daily => chrono::TimeDelta::days(self.interval.into()),
-            Freq::Weekly => chrono::TimeDelta::weeks(self.interval.into()),
-            Freq::Monthly => return rhs + chrono::Months::new(self.interval.into()),
-            Freq::Yearly => return rhs.with_year(rhs.year() + self.interval as i32).unwrap(),
-        };
-
-        rhs + interval
+        self.next_naive(rhs).expect("date out of range")
     }
 }
 
-- 
2.43.0


From 2f12ef233338c46d73ef163fd422654ad5692b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 29/39] fix: expand a recurrence to the set of its rule

An excluded date past the end dropped the occurrence before it, the first
occurrence couldn't be excluded, the excluded occurrences didn't use up the
count, the end was only compared by day, and the iterator panicked after the
last date it can represent.
---
 src/iter.rs | 57 ++++++++++++++++++++++++-----------------------------
 1 file changed, 26 insertions(+), 31 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 89c08c9..168b425 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -106,12 +106,14 @@ impl Recurring for crate::VTodo {
 }
 
 pub struct Recur<T: Recurring> {
-    item: T,
+    item: Option<T>,
 }
 
 impl<T: Recurring> Recur<T> {
     pub(crate) fn from(item: &T) -> Self {
-        Self { item: item.clone() }
+        Self {
+            item: Some(item.clone()),
+        }
     }
 
     pub fn between<D: Into<crate::Date> + Copy>(self, start: D, end: D) -> impl Iterator<Item = T> {
@@ -133,46 +135,39 @@ impl<T: Recurring> Iterator for Recur<T> {
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let current = self.item.clone();
-
-        let mut next = self.item.clone();
-
         loop {
-            let dtstart = next.dtstart()?;
-            let mut rrule = next.rrule()?.clone();
+            let current = self.item.take()?;
 
-            if let Some(until) = &rrule.until {
-                if dtstart.date_naive() > until.date_naive() {
-                    return None;
-                }
-            }
+            let dtstart = *current.dtstart()?;
+            let rrule = current.rrule()?;
 
-            let dtstart = rrule.clone() + *dtstart;
-            next.set_dtstart(dtstart);
-
-            if let Some(dtend) = next.dtend() {
-                let dtend = rrule.clone() + *dtend;
-                next.set_dtend(dtend);
+            if rrule.count == Some(0) || rrule.until.is_some_and(|until| dtstart > until) {
+                return None;
             }
 
-            next.set_rrule(rrule.clone());
-
-            if next.exdate().contains(&dtstart) {
-                continue;
-            }
+            self.item = advance(&current);
 
-            if let Some(count) = rrule.count.as_mut() {
-                *count = count.checked_sub(1)?;
-                next.set_rrule(rrule.clone());
+            if !current.exdate().contains(&dtstart) {
+                return Some(current);
             }
-
-            break;
         }
+    }
+}
 
-        self.item = next;
+fn advance<T: Recurring>(current: &T) -> Option<T> {
+    let mut next = current.clone();
+    let mut rrule = current.rrule()?.clone();
 
-        Some(current)
+    next.set_dtstart(rrule.checked_next(*current.dtstart()?)?);
+
+    if let Some(dtend) = current.dtend() {
+        next.set_dtend(rrule.checked_next(*dtend)?);
     }
+
+    rrule.count = rrule.count.map(|count| count - 1);
+    next.set_rrule(rrule);
+
+    Some(next)
 }
 
 #[cfg(test)]
-- 
2.43.0


From ffb7ca3da4a2b19d356808557a65280c38ae1fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 30/39] fix: repeat every time when the interval is zero

An interval of zero never left the first occurrence, and looped forever if it
was excluded.
---
 src/properties/recur.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties/recur.rs b/src/properties/recur.rs
index f8a23dc..e9957f2 100644
--- a/src/properties/recur.rs
+++ b/src/properties/recur.rs
@@ -113,7 +113,7 @@ impl Recur {
     }
 
     fn step(&self) -> Step {
-        let interval = self.interval;
+        let interval = self.interval.max(1);
 
         match self.freq {
             Freq::Secondly => Step::Time(chrono::TimeDelta::seconds(interval.into())),
-- 
2.43.0


From 5d4602a463b5d2ac40ecf16bcfb5f50d75ff0441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 31/39] fix: compare and subtract the local times as instants

Around the end of daylight saving, two times an hour apart were equal and the
order could be reversed.
---
 src/properties/date.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/properties/date.rs b/src/properties/date.rs
index 6a551a1..8e2460e 100644
--- a/src/properties/date.rs
+++ b/src/properties/date.rs
@@ -98,7 +98,10 @@ impl std::ops::Sub for DateTime {
     type Output = chrono::Duration;
 
     fn sub(self, rhs: Self) -> Self::Output {
-        self.naive().sub(rhs.naive())
+        match (self, rhs) {
+            (Self::Local(a), Self::Local(b)) => a.signed_duration_since(b),
+            (a, b) => a.naive().sub(b.naive()),
+        }
     }
 }
 
@@ -145,7 +148,10 @@ impl std::cmp::PartialOrd for DateTime {
 
 impl std::cmp::Ord for DateTime {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-        self.naive().cmp(&other.naive())
+        match (self, other) {
+            (Self::Local(a), Self::Local(b)) => a.cmp(b),
+            (a, b) => a.naive().cmp(&b.naive()),
+        }
     }
 }
 
-- 
2.43.0


From 6ae9e0ac61201f8de2b58bf9a4e5763a85c3482a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 32/39] fix: move the end of an occurrence with its start

The end of a monthly or yearly occurrence was computed apart from its start,
which changed its length, and the due date of a to-do never moved.
---
 src/iter.rs            | 10 ++++++++--
 src/properties/date.rs | 24 ++++++++++++++++++++++++
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 168b425..6c19720 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -158,10 +158,16 @@ fn advance<T: Recurring>(current: &T) -> Option<T> {
     let mut next = current.clone();
     let mut rrule = current.rrule()?.clone();
 
-    next.set_dtstart(rrule.checked_next(*current.dtstart()?)?);
+    let from = *current.dtstart()?;
+    let to = rrule.checked_next(from)?;
+    next.set_dtstart(to);
 
     if let Some(dtend) = current.dtend() {
-        next.set_dtend(rrule.checked_next(*dtend)?);
+        next.set_dtend(dtend.shift(from, to)?);
+    }
+
+    if let Some(due) = current.due() {
+        next.set_due(due.shift(from, to)?);
     }
 
     rrule.count = rrule.count.map(|count| count - 1);
diff --git a/src/properties/date.rs b/src/properties/date.rs
index 8e2460e..fe05b29 100644
--- a/src/properties/date.rs
+++ b/src/properties/date.rs
@@ -210,6 +210,30 @@ impl Date {
     pub fn has_time(&self) -> bool {
         matches!(self, Self::DateTime(_))
     }
+
+    /**
+     * Moves this date by the time elapsed between `from` and `to`.
+     */
+    pub(crate) fn shift(self, from: Self, to: Self) -> Option<Self> {
+        let delta = DateTime::from(to) - DateTime::from(from);
+
+        let date = match self {
+            Self::Date(date) if to.has_time() => {
+                DateTime::Naive(date.and_hms_opt(0, 0, 0)?.checked_add_signed(delta)?).into()
+            }
+            Self::Date(date) => Self::Date(date.checked_add_signed(delta)?),
+            Self::DateTime(DateTime::Naive(naive)) => {
+                DateTime::Naive(naive.checked_add_signed(delta)?).into()
+            }
+            Self::DateTime(DateTime::Local(local)) => {
+                let local = local.checked_add_signed(delta)?;
+                local.naive_utc().checked_add_offset(*local.offset())?;
+                DateTime::Local(local).into()
+            }
+        };
+
+        Some(date)
+    }
 }
 
 impl Default for Date {
-- 
2.43.0


From ad482038e43b14a35e654d24180fa814338d200b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 33/39] fix: parse the audio, display and email alarms instead
 of panicking

---
 src/parser/components.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index f13cd9a..b4240f1 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -1,7 +1,7 @@
 use nom::Parser as _;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::combinator::{map, map_res};
+use nom::combinator::{map, map_opt, map_res};
 use nom::error::{FromExternalError, context};
 use nom::multi::many0;
 use nom::sequence::delimited;
@@ -31,17 +31,21 @@ component!(vjournal, crate::VJournal);
 component!(standard, crate::vtimezone::Standard);
 component!(daylight, crate::vtimezone::Daylight);
 
-pub(crate) fn audio(_: &str) -> super::NomResult<&str, crate::valarm::Audio> {
-    unreachable!()
-}
-
-pub(crate) fn display(_: &str) -> super::NomResult<&str, crate::valarm::Display> {
-    unreachable!()
+macro_rules! alarm {
+    ($name:ident, $ty:ident) => {
+        pub(crate) fn $name(input: &str) -> super::NomResult<&str, crate::valarm::$ty> {
+            map_opt(valarm, |alarm| match alarm {
+                crate::VAlarm::$ty(alarm) => Some(alarm),
+                _ => None,
+            })
+            .parse(input)
+        }
+    };
 }
 
-pub(crate) fn email(_: &str) -> super::NomResult<&str, crate::valarm::Email> {
-    unreachable!()
-}
+alarm!(audio, Audio);
+alarm!(display, Display);
+alarm!(email, Email);
 
 pub(crate) fn vevent(input: &str) -> super::NomResult<&str, crate::VEvent> {
     context(
-- 
2.43.0


From d55beca26ae80a24eb5084beebde4d30f4198fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 34/39] fix: accept calscale and method in vcalendar!

---
 derive/src/macros.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/derive/src/macros.rs b/derive/src/macros.rs
index 327d4c6..12bdddc 100644
--- a/derive/src/macros.rs
+++ b/derive/src/macros.rs
@@ -237,7 +237,8 @@ impl Type {
             || (ty == "VTodo" && field == "dtstart")
             || matches!(
                 field,
-                "class"
+                "calscale"
+                    | "class"
                     | "completed"
                     | "created"
                     | "dtend"
@@ -247,6 +248,7 @@ impl Type {
                     | "geo"
                     | "last_modified"
                     | "location"
+                    | "method"
                     | "organizer"
                     | "priority"
                     | "recurid"
-- 
2.43.0


From c8f2e7783a57332c53ebda97e09821f7dd341e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 35/39] fix: parse the periods in vfreebusy!

---
 derive/src/macros.rs | 43 ++++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/derive/src/macros.rs b/derive/src/macros.rs
index 12bdddc..763e4c9 100644
--- a/derive/src/macros.rs
+++ b/derive/src/macros.rs
@@ -265,27 +265,28 @@ impl Type {
         !matches!(field, "lat" | "lon" | "sequence")
     }
 
-    fn should_parsed(_ty: &str, field: &str) -> bool {
-        matches!(
-            field,
-            "completed"
-                | "dtstamp"
-                | "dtstart"
-                | "duration"
-                | "created"
-                | "due"
-                | "last_modified"
-                | "dtend"
-                | "tzoffsetfrom"
-                | "tzoffsetto"
-                | "trigger"
-                | "geo"
-                | "rrule"
-                | "rstatus"
-                | "rdate"
-                | "exdate"
-                | "recurid"
-        )
+    fn should_parsed(ty: &str, field: &str) -> bool {
+        (ty == "VFreebusy" && field == "freebusy")
+            || matches!(
+                field,
+                "completed"
+                    | "dtstamp"
+                    | "dtstart"
+                    | "duration"
+                    | "created"
+                    | "due"
+                    | "last_modified"
+                    | "dtend"
+                    | "tzoffsetfrom"
+                    | "tzoffsetto"
+                    | "trigger"
+                    | "geo"
+                    | "rrule"
+                    | "rstatus"
+                    | "rdate"
+                    | "exdate"
+                    | "recurid"
+            )
     }
 
     fn r#enum(_ty: &str, field: &str) -> Option<proc_macro2::TokenStream> {
-- 
2.43.0


From a9027fdde7a0d424fec8c13486ef5ffe78027ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 36/39] fix: accept all kinds of components in vcalendar!

---
 derive/src/macros.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/derive/src/macros.rs b/derive/src/macros.rs
index 763e4c9..9512404 100644
--- a/derive/src/macros.rs
+++ b/derive/src/macros.rs
@@ -209,10 +209,14 @@ impl quote::ToTokens for TypedValue {
                     (_, "alarms") => "VAlarm".to_string(),
                     (_, "daylight") => "vtimezone::Daylight".to_string(),
                     (_, "events") => "VEvent".to_string(),
+                    ("VCalendar", "freebusy") => "VFreebusy".to_string(),
                     (_, "geo") => "Geo".to_string(),
+                    (_, "journals") => "VJournal".to_string(),
                     (_, "rrule") => "Recur".to_string(),
                     (_, "rstatus") => "RequestStatus".to_string(),
                     (_, "standard") => "vtimezone::Standard".to_string(),
+                    (_, "timezones") => "VTimezone".to_string(),
+                    (_, "todo") => "VTodo".to_string(),
                     (ty, field) => todo!("{ty}.{field}"),
                 };
 
-- 
2.43.0


From 5cca3f80ebeeb1f4759661208a54ec6456238288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 37/39] fix: reject a UTC offset with more than 59 seconds

---
 src/parser/timezone.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/timezone.rs b/src/parser/timezone.rs
index 7136e39..6cae25e 100644
--- a/src/parser/timezone.rs
+++ b/src/parser/timezone.rs
@@ -17,7 +17,10 @@ pub(crate) fn tzname(input: crate::ContentLine) -> crate::Result<crate::Text> {
 }
 
 fn utc_offset(input: &str) -> crate::Result<chrono::offset::FixedOffset> {
-    if !matches!(input.len(), 5 | 7) || !input.bytes().skip(1).all(|x| x.is_ascii_digit()) {
+    if !matches!(input.len(), 5 | 7)
+        || !input.bytes().skip(1).all(|x| x.is_ascii_digit())
+        || input.get(5..).is_some_and(|seconds| seconds > "59")
+    {
         return Err(crate::Error::Parser(format!("Invalid UTC offset: {input}")));
     }
 
-- 
2.43.0


From 3059e83db5c7c31dbf90eadbd7876991a3ffb734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:41 +0000
Subject: [PATCH 38/39] fix: serialise extension properties before the nested
 components

---
 derive/src/component.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index 19fe797..8758a64 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -31,6 +31,7 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
     let mut new_body = Vec::new();
     let mut from_body = Vec::new();
     let mut ser_body = Vec::new();
+    let mut ser_components = Vec::new();
 
     for field in fields {
         let name = &field.ident;
@@ -77,7 +78,12 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
             }
         };
 
-        ser_body.push(ser_part);
+        // The properties come before the nested components
+        if field_params.ignore && crate::is_vec(ty) {
+            ser_components.push(ser_part);
+        } else {
+            ser_body.push(ser_part);
+        }
 
         if field_params.ignore {
             continue;
@@ -184,6 +190,7 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
                 s.push_str(&name);
                 s.push_str("\r\n");
                 #(#ser_body)*
+                #(#ser_components)*
                 s.push_str("END:");
                 s.push_str(&name);
                 s.push_str("\r\n");
-- 
2.43.0


From 320812d9e3b017b834b6e738941a1d911249fdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:07 +0000
Subject: [PATCH 39/39] fix: accept any expression as a value in macros

The conversion applied to the last operand only.
---
 derive/src/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/macros.rs b/derive/src/macros.rs
index 9512404..a322115 100644
--- a/derive/src/macros.rs
+++ b/derive/src/macros.rs
@@ -181,10 +181,10 @@ impl quote::ToTokens for TypedValue {
                         let ikal = ikal();
                         quote::quote! { #ikal::parse_duration(#v)? }
                     } else {
-                        quote::quote! { #v.parse()? }
+                        quote::quote! { (#v).parse()? }
                     }
                 } else if Type::should_convert(&self.0, &self.1) {
-                    quote::quote! { #v.into() }
+                    quote::quote! { (#v).into() }
                 } else {
                     v.to_token_stream()
                 };
-- 
2.43.0

