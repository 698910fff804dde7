// Written by tools/gen_macros.py.

use super::{Call, num};
use ikalmc::model::Kind;
use ikalmc::obs::Any;

pub const ONE: &[Call] = &[
    Call { kind: Kind::Calendar, label: "prodid", fields: &["prodid"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { prodid: a[0] }?)) },
    Call { kind: Kind::Calendar, label: "prodid,", fields: &["prodid"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { prodid: a[0], }?)) },
    Call { kind: Kind::Calendar, label: "version", fields: &["version"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { version: a[0] }?)) },
    Call { kind: Kind::Calendar, label: "version,", fields: &["version"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { version: a[0], }?)) },
    Call { kind: Kind::Calendar, label: "calscale", fields: &["calscale"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { calscale: a[0] }?)) },
    Call { kind: Kind::Calendar, label: "calscale,", fields: &["calscale"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { calscale: a[0], }?)) },
    Call { kind: Kind::Calendar, label: "method", fields: &["method"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { method: a[0] }?)) },
    Call { kind: Kind::Calendar, label: "method,", fields: &["method"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { method: a[0], }?)) },
    Call { kind: Kind::Calendar, label: "nothing", fields: &[], f: |a| Ok(Any::Calendar(ikal::vcalendar! {  }?)) },
    Call { kind: Kind::Calendar, label: "prodid String", fields: &["prodid"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { prodid: a[0].to_string() }?)) },
    Call { kind: Kind::Calendar, label: "prodid typed", fields: &["prodid"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { prodid: ikal::Text::from(a[0]) }?)) },
    Call { kind: Kind::Calendar, label: "version String", fields: &["version"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { version: a[0].to_string() }?)) },
    Call { kind: Kind::Calendar, label: "version typed", fields: &["version"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { version: ikal::Text::from(a[0]) }?)) },
    Call { kind: Kind::Calendar, label: "calscale String", fields: &["calscale"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { calscale: a[0].to_string() }?)) },
    Call { kind: Kind::Calendar, label: "calscale typed", fields: &["calscale"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { calscale: ikal::Text::from(a[0]) }?)) },
    Call { kind: Kind::Calendar, label: "method String", fields: &["method"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { method: a[0].to_string() }?)) },
    Call { kind: Kind::Calendar, label: "method typed", fields: &["method"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { method: ikal::Text::from(a[0]) }?)) },
    Call { kind: Kind::Event, label: "dtstamp", fields: &["dtstamp"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0] }?)) },
    Call { kind: Kind::Event, label: "dtstamp,", fields: &["dtstamp"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], }?)) },
    Call { kind: Kind::Event, label: "uid", fields: &["uid"], f: |a| Ok(Any::Event(ikal::vevent! { uid: a[0] }?)) },
    Call { kind: Kind::Event, label: "uid,", fields: &["uid"], f: |a| Ok(Any::Event(ikal::vevent! { uid: a[0], }?)) },
    Call { kind: Kind::Event, label: "dtstart", fields: &["dtstart"], f: |a| Ok(Any::Event(ikal::vevent! { dtstart: a[0] }?)) },
    Call { kind: Kind::Event, label: "dtstart,", fields: &["dtstart"], f: |a| Ok(Any::Event(ikal::vevent! { dtstart: a[0], }?)) },
    Call { kind: Kind::Event, label: "class: Public", fields: &["class=PUBLIC"], f: |a| Ok(Any::Event(ikal::vevent! { class: Public }?)) },
    Call { kind: Kind::Event, label: "class: Private", fields: &["class=PRIVATE"], f: |a| Ok(Any::Event(ikal::vevent! { class: Private }?)) },
    Call { kind: Kind::Event, label: "class: Confidential", fields: &["class=CONFIDENTIAL"], f: |a| Ok(Any::Event(ikal::vevent! { class: Confidential }?)) },
    Call { kind: Kind::Event, label: "class: Custom", fields: &["class"], f: |a| Ok(Any::Event(ikal::vevent! { class: Custom(a[0].to_string()) }?)) },
    Call { kind: Kind::Event, label: "created", fields: &["created"], f: |a| Ok(Any::Event(ikal::vevent! { created: a[0] }?)) },
    Call { kind: Kind::Event, label: "created,", fields: &["created"], f: |a| Ok(Any::Event(ikal::vevent! { created: a[0], }?)) },
    Call { kind: Kind::Event, label: "description", fields: &["description"], f: |a| Ok(Any::Event(ikal::vevent! { description: a[0] }?)) },
    Call { kind: Kind::Event, label: "description,", fields: &["description"], f: |a| Ok(Any::Event(ikal::vevent! { description: a[0], }?)) },
    Call { kind: Kind::Event, label: "geo", fields: &["geo"], f: |a| Ok(Any::Event(ikal::vevent! { geo: a[0] }?)) },
    Call { kind: Kind::Event, label: "geo,", fields: &["geo"], f: |a| Ok(Any::Event(ikal::vevent! { geo: a[0], }?)) },
    Call { kind: Kind::Event, label: "geo object", fields: &["geo.lat", "geo.lon"], f: |a| Ok(Any::Event(ikal::vevent! { geo: { lat: num::<f32>(a[0]), lon: num::<f32>(a[1]) } }?)) },
    Call { kind: Kind::Event, label: "geo object reversed", fields: &["geo.lon", "geo.lat"], f: |a| Ok(Any::Event(ikal::vevent! { geo: { lon: num::<f32>(a[0]), lat: num::<f32>(a[1]) } }?)) },
    Call { kind: Kind::Event, label: "last_modified", fields: &["last_modified"], f: |a| Ok(Any::Event(ikal::vevent! { last_modified: a[0] }?)) },
    Call { kind: Kind::Event, label: "last_modified,", fields: &["last_modified"], f: |a| Ok(Any::Event(ikal::vevent! { last_modified: a[0], }?)) },
    Call { kind: Kind::Event, label: "location", fields: &["location"], f: |a| Ok(Any::Event(ikal::vevent! { location: a[0] }?)) },
    Call { kind: Kind::Event, label: "location,", fields: &["location"], f: |a| Ok(Any::Event(ikal::vevent! { location: a[0], }?)) },
    Call { kind: Kind::Event, label: "organizer", fields: &["organizer"], f: |a| Ok(Any::Event(ikal::vevent! { organizer: a[0] }?)) },
    Call { kind: Kind::Event, label: "organizer,", fields: &["organizer"], f: |a| Ok(Any::Event(ikal::vevent! { organizer: a[0], }?)) },
    Call { kind: Kind::Event, label: "priority", fields: &["priority"], f: |a| Ok(Any::Event(ikal::vevent! { priority: num::<u8>(a[0]) }?)) },
    Call { kind: Kind::Event, label: "priority,", fields: &["priority"], f: |a| Ok(Any::Event(ikal::vevent! { priority: num::<u8>(a[0]), }?)) },
    Call { kind: Kind::Event, label: "sequence", fields: &["sequence"], f: |a| Ok(Any::Event(ikal::vevent! { sequence: num::<u32>(a[0]) }?)) },
    Call { kind: Kind::Event, label: "sequence,", fields: &["sequence"], f: |a| Ok(Any::Event(ikal::vevent! { sequence: num::<u32>(a[0]), }?)) },
    Call { kind: Kind::Event, label: "status: Tentative", fields: &["status=TENTATIVE"], f: |a| Ok(Any::Event(ikal::vevent! { status: Tentative }?)) },
    Call { kind: Kind::Event, label: "status: Confirmed", fields: &["status=CONFIRMED"], f: |a| Ok(Any::Event(ikal::vevent! { status: Confirmed }?)) },
    Call { kind: Kind::Event, label: "status: Cancelled", fields: &["status=CANCELLED"], f: |a| Ok(Any::Event(ikal::vevent! { status: Cancelled }?)) },
    Call { kind: Kind::Event, label: "status: NeedsAction", fields: &["status=NEEDS-ACTION"], f: |a| Ok(Any::Event(ikal::vevent! { status: NeedsAction }?)) },
    Call { kind: Kind::Event, label: "status: Completed", fields: &["status=COMPLETED"], f: |a| Ok(Any::Event(ikal::vevent! { status: Completed }?)) },
    Call { kind: Kind::Event, label: "status: InProcess", fields: &["status=IN-PROCESS"], f: |a| Ok(Any::Event(ikal::vevent! { status: InProcess }?)) },
    Call { kind: Kind::Event, label: "status: Draft", fields: &["status=DRAFT"], f: |a| Ok(Any::Event(ikal::vevent! { status: Draft }?)) },
    Call { kind: Kind::Event, label: "status: Final", fields: &["status=FINAL"], f: |a| Ok(Any::Event(ikal::vevent! { status: Final }?)) },
    Call { kind: Kind::Event, label: "summary", fields: &["summary"], f: |a| Ok(Any::Event(ikal::vevent! { summary: a[0] }?)) },
    Call { kind: Kind::Event, label: "summary,", fields: &["summary"], f: |a| Ok(Any::Event(ikal::vevent! { summary: a[0], }?)) },
    Call { kind: Kind::Event, label: "transp: Opaque", fields: &["transp=OPAQUE"], f: |a| Ok(Any::Event(ikal::vevent! { transp: Opaque }?)) },
    Call { kind: Kind::Event, label: "transp: Transparent", fields: &["transp=TRANSPARENT"], f: |a| Ok(Any::Event(ikal::vevent! { transp: Transparent }?)) },
    Call { kind: Kind::Event, label: "url", fields: &["url"], f: |a| Ok(Any::Event(ikal::vevent! { url: a[0] }?)) },
    Call { kind: Kind::Event, label: "url,", fields: &["url"], f: |a| Ok(Any::Event(ikal::vevent! { url: a[0], }?)) },
    Call { kind: Kind::Event, label: "rrule", fields: &["rrule"], f: |a| Ok(Any::Event(ikal::vevent! { rrule: a[0] }?)) },
    Call { kind: Kind::Event, label: "rrule,", fields: &["rrule"], f: |a| Ok(Any::Event(ikal::vevent! { rrule: a[0], }?)) },
    Call { kind: Kind::Event, label: "dtend", fields: &["dtend"], f: |a| Ok(Any::Event(ikal::vevent! { dtend: a[0] }?)) },
    Call { kind: Kind::Event, label: "dtend,", fields: &["dtend"], f: |a| Ok(Any::Event(ikal::vevent! { dtend: a[0], }?)) },
    Call { kind: Kind::Event, label: "duration", fields: &["duration"], f: |a| Ok(Any::Event(ikal::vevent! { duration: a[0] }?)) },
    Call { kind: Kind::Event, label: "duration,", fields: &["duration"], f: |a| Ok(Any::Event(ikal::vevent! { duration: a[0], }?)) },
    Call { kind: Kind::Event, label: "attach", fields: &["attach"], f: |a| Ok(Any::Event(ikal::vevent! { attach: [a[0]] }?)) },
    Call { kind: Kind::Event, label: "attach none", fields: &[], f: |a| Ok(Any::Event(ikal::vevent! { attach: [] }?)) },
    Call { kind: Kind::Event, label: "attach two", fields: &["attach", "attach"], f: |a| Ok(Any::Event(ikal::vevent! { attach: [a[0], a[1]] }?)) },
    Call { kind: Kind::Event, label: "attach three", fields: &["attach", "attach", "attach"], f: |a| Ok(Any::Event(ikal::vevent! { attach: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Event, label: "attendee", fields: &["attendee"], f: |a| Ok(Any::Event(ikal::vevent! { attendee: [a[0]] }?)) },
    Call { kind: Kind::Event, label: "attendee none", fields: &[], f: |a| Ok(Any::Event(ikal::vevent! { attendee: [] }?)) },
    Call { kind: Kind::Event, label: "attendee two", fields: &["attendee", "attendee"], f: |a| Ok(Any::Event(ikal::vevent! { attendee: [a[0], a[1]] }?)) },
    Call { kind: Kind::Event, label: "attendee three", fields: &["attendee", "attendee", "attendee"], f: |a| Ok(Any::Event(ikal::vevent! { attendee: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Event, label: "categories", fields: &["categories"], f: |a| Ok(Any::Event(ikal::vevent! { categories: [a[0]] }?)) },
    Call { kind: Kind::Event, label: "categories none", fields: &[], f: |a| Ok(Any::Event(ikal::vevent! { categories: [] }?)) },
    Call { kind: Kind::Event, label: "categories two", fields: &["categories", "categories"], f: |a| Ok(Any::Event(ikal::vevent! { categories: [a[0], a[1]] }?)) },
    Call { kind: Kind::Event, label: "categories three", fields: &["categories", "categories", "categories"], f: |a| Ok(Any::Event(ikal::vevent! { categories: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Event, label: "comment", fields: &["comment"], f: |a| Ok(Any::Event(ikal::vevent! { comment: [a[0]] }?)) },
    Call { kind: Kind::Event, label: "comment none", fields: &[], f: |a| Ok(Any::Event(ikal::vevent! { comment: [] }?)) },
    Call { kind: Kind::Event, label: "comment two", fields: &["comment", "comment"], f: |a| Ok(Any::Event(ikal::vevent! { comment: [a[0], a[1]] }?)) },
    Call { kind: Kind::Event, label: "comment three", fields: &["comment", "comment", "comment"], f: |a| Ok(Any::Event(ikal::vevent! { comment: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Event, label: "contact", fields: &["contact"], f: |a| Ok(Any::Event(ikal::vevent! { contact: [a[0]] }?)) },
    Call { kind: Kind::Event, label: "contact none", fields: &[], f: |a| Ok(Any::Event(ikal::vevent! { contact: [] }?)) },
    Call { kind: Kind::Event, label: "contact two", fields: &["contact", "contact"], f: |a| Ok(Any::Event(ikal::vevent! { contact: [a[0], a[1]] }?)) },
    Call { kind: Kind::Event, label: "contact three", fields: &["contact", "contact", "contact"], f: |a| Ok(Any::Event(ikal::vevent! { contact: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Event, label: "exdate", fields: &["exdate"], f: |a| Ok(Any::Event(ikal::vevent! { exdate: [a[0]] }?)) },
    Call { kind: Kind::Event, label: "exdate none", fields: &[], f: |a| Ok(Any::Event(ikal::vevent! { exdate: [] }?)) },
    Call { kind: Kind::Event, label: "exdate two", fields: &["exdate", "exdate"], f: |a| Ok(Any::Event(ikal::vevent! { exdate: [a[0], a[1]] }?)) },
    Call { kind: Kind::Event, label: "exdate three", fields: &["exdate", "exdate", "exdate"], f: |a| Ok(Any::Event(ikal::vevent! { exdate: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Event, label: "rstatus", fields: &["rstatus"], f: |a| Ok(Any::Event(ikal::vevent! { rstatus: [a[0]] }?)) },
    Call { kind: Kind::Event, label: "rstatus none", fields: &[], f: |a| Ok(Any::Event(ikal::vevent! { rstatus: [] }?)) },
    Call { kind: Kind::Event, label: "rstatus two", fields: &["rstatus", "rstatus"], f: |a| Ok(Any::Event(ikal::vevent! { rstatus: [a[0], a[1]] }?)) },
    Call { kind: Kind::Event, label: "rstatus three", fields: &["rstatus", "rstatus", "rstatus"], f: |a| Ok(Any::Event(ikal::vevent! { rstatus: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Event, label: "rstatus object", fields: &["rstatus.statcode", "rstatus.statdesc"], f: |a| Ok(Any::Event(ikal::vevent! { rstatus: [{ statcode: num::<f32>(a[0]), statdesc: a[1] }] }?)) },
    Call { kind: Kind::Event, label: "rstatus object with data", fields: &["rstatus.statcode", "rstatus.statdesc", "rstatus.extdata"], f: |a| Ok(Any::Event(ikal::vevent! { rstatus: [{ statcode: num::<f32>(a[0]), statdesc: a[1], extdata: a[2] }] }?)) },
    Call { kind: Kind::Event, label: "related_to", fields: &["related_to"], f: |a| Ok(Any::Event(ikal::vevent! { related_to: [a[0]] }?)) },
    Call { kind: Kind::Event, label: "related_to none", fields: &[], f: |a| Ok(Any::Event(ikal::vevent! { related_to: [] }?)) },
    Call { kind: Kind::Event, label: "related_to two", fields: &["related_to", "related_to"], f: |a| Ok(Any::Event(ikal::vevent! { related_to: [a[0], a[1]] }?)) },
    Call { kind: Kind::Event, label: "related_to three", fields: &["related_to", "related_to", "related_to"], f: |a| Ok(Any::Event(ikal::vevent! { related_to: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Event, label: "resources", fields: &["resources"], f: |a| Ok(Any::Event(ikal::vevent! { resources: [a[0]] }?)) },
    Call { kind: Kind::Event, label: "resources none", fields: &[], f: |a| Ok(Any::Event(ikal::vevent! { resources: [] }?)) },
    Call { kind: Kind::Event, label: "resources two", fields: &["resources", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { resources: [a[0], a[1]] }?)) },
    Call { kind: Kind::Event, label: "resources three", fields: &["resources", "resources", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { resources: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Event, label: "nothing", fields: &[], f: |a| Ok(Any::Event(ikal::vevent! {  }?)) },
    Call { kind: Kind::Event, label: "uid String", fields: &["uid"], f: |a| Ok(Any::Event(ikal::vevent! { uid: a[0].to_string() }?)) },
    Call { kind: Kind::Event, label: "uid typed", fields: &["uid"], f: |a| Ok(Any::Event(ikal::vevent! { uid: ikal::Text::from(a[0]) }?)) },
    Call { kind: Kind::Event, label: "description String", fields: &["description"], f: |a| Ok(Any::Event(ikal::vevent! { description: a[0].to_string() }?)) },
    Call { kind: Kind::Event, label: "description typed", fields: &["description"], f: |a| Ok(Any::Event(ikal::vevent! { description: ikal::Text::from(a[0]) }?)) },
    Call { kind: Kind::Event, label: "location String", fields: &["location"], f: |a| Ok(Any::Event(ikal::vevent! { location: a[0].to_string() }?)) },
    Call { kind: Kind::Event, label: "location typed", fields: &["location"], f: |a| Ok(Any::Event(ikal::vevent! { location: ikal::Text::from(a[0]) }?)) },
    Call { kind: Kind::Event, label: "organizer String", fields: &["organizer"], f: |a| Ok(Any::Event(ikal::vevent! { organizer: a[0].to_string() }?)) },
    Call { kind: Kind::Event, label: "organizer typed", fields: &["organizer"], f: |a| Ok(Any::Event(ikal::vevent! { organizer: ikal::Uri::from(a[0]) }?)) },
    Call { kind: Kind::Event, label: "summary String", fields: &["summary"], f: |a| Ok(Any::Event(ikal::vevent! { summary: a[0].to_string() }?)) },
    Call { kind: Kind::Event, label: "summary typed", fields: &["summary"], f: |a| Ok(Any::Event(ikal::vevent! { summary: ikal::Text::from(a[0]) }?)) },
    Call { kind: Kind::Event, label: "url String", fields: &["url"], f: |a| Ok(Any::Event(ikal::vevent! { url: a[0].to_string() }?)) },
    Call { kind: Kind::Event, label: "url typed", fields: &["url"], f: |a| Ok(Any::Event(ikal::vevent! { url: ikal::Uri::from(a[0]) }?)) },
    Call { kind: Kind::Todo, label: "dtstamp", fields: &["dtstamp"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0] }?)) },
    Call { kind: Kind::Todo, label: "dtstamp,", fields: &["dtstamp"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], }?)) },
    Call { kind: Kind::Todo, label: "uid", fields: &["uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: a[0] }?)) },
    Call { kind: Kind::Todo, label: "uid,", fields: &["uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: a[0], }?)) },
    Call { kind: Kind::Todo, label: "class: Public", fields: &["class=PUBLIC"], f: |a| Ok(Any::Todo(ikal::vtodo! { class: Public }?)) },
    Call { kind: Kind::Todo, label: "class: Private", fields: &["class=PRIVATE"], f: |a| Ok(Any::Todo(ikal::vtodo! { class: Private }?)) },
    Call { kind: Kind::Todo, label: "class: Confidential", fields: &["class=CONFIDENTIAL"], f: |a| Ok(Any::Todo(ikal::vtodo! { class: Confidential }?)) },
    Call { kind: Kind::Todo, label: "class: Custom", fields: &["class"], f: |a| Ok(Any::Todo(ikal::vtodo! { class: Custom(a[0].to_string()) }?)) },
    Call { kind: Kind::Todo, label: "completed", fields: &["completed"], f: |a| Ok(Any::Todo(ikal::vtodo! { completed: a[0] }?)) },
    Call { kind: Kind::Todo, label: "completed,", fields: &["completed"], f: |a| Ok(Any::Todo(ikal::vtodo! { completed: a[0], }?)) },
    Call { kind: Kind::Todo, label: "created", fields: &["created"], f: |a| Ok(Any::Todo(ikal::vtodo! { created: a[0] }?)) },
    Call { kind: Kind::Todo, label: "created,", fields: &["created"], f: |a| Ok(Any::Todo(ikal::vtodo! { created: a[0], }?)) },
    Call { kind: Kind::Todo, label: "dtstart", fields: &["dtstart"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstart: a[0] }?)) },
    Call { kind: Kind::Todo, label: "dtstart,", fields: &["dtstart"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstart: a[0], }?)) },
    Call { kind: Kind::Todo, label: "geo", fields: &["geo"], f: |a| Ok(Any::Todo(ikal::vtodo! { geo: a[0] }?)) },
    Call { kind: Kind::Todo, label: "geo,", fields: &["geo"], f: |a| Ok(Any::Todo(ikal::vtodo! { geo: a[0], }?)) },
    Call { kind: Kind::Todo, label: "geo object", fields: &["geo.lat", "geo.lon"], f: |a| Ok(Any::Todo(ikal::vtodo! { geo: { lat: num::<f32>(a[0]), lon: num::<f32>(a[1]) } }?)) },
    Call { kind: Kind::Todo, label: "geo object reversed", fields: &["geo.lon", "geo.lat"], f: |a| Ok(Any::Todo(ikal::vtodo! { geo: { lon: num::<f32>(a[0]), lat: num::<f32>(a[1]) } }?)) },
    Call { kind: Kind::Todo, label: "last_modified", fields: &["last_modified"], f: |a| Ok(Any::Todo(ikal::vtodo! { last_modified: a[0] }?)) },
    Call { kind: Kind::Todo, label: "last_modified,", fields: &["last_modified"], f: |a| Ok(Any::Todo(ikal::vtodo! { last_modified: a[0], }?)) },
    Call { kind: Kind::Todo, label: "location", fields: &["location"], f: |a| Ok(Any::Todo(ikal::vtodo! { location: a[0] }?)) },
    Call { kind: Kind::Todo, label: "location,", fields: &["location"], f: |a| Ok(Any::Todo(ikal::vtodo! { location: a[0], }?)) },
    Call { kind: Kind::Todo, label: "organizer", fields: &["organizer"], f: |a| Ok(Any::Todo(ikal::vtodo! { organizer: a[0] }?)) },
    Call { kind: Kind::Todo, label: "organizer,", fields: &["organizer"], f: |a| Ok(Any::Todo(ikal::vtodo! { organizer: a[0], }?)) },
    Call { kind: Kind::Todo, label: "percent_complete", fields: &["percent_complete"], f: |a| Ok(Any::Todo(ikal::vtodo! { percent_complete: num::<u8>(a[0]) }?)) },
    Call { kind: Kind::Todo, label: "percent_complete,", fields: &["percent_complete"], f: |a| Ok(Any::Todo(ikal::vtodo! { percent_complete: num::<u8>(a[0]), }?)) },
    Call { kind: Kind::Todo, label: "priority", fields: &["priority"], f: |a| Ok(Any::Todo(ikal::vtodo! { priority: num::<u8>(a[0]) }?)) },
    Call { kind: Kind::Todo, label: "priority,", fields: &["priority"], f: |a| Ok(Any::Todo(ikal::vtodo! { priority: num::<u8>(a[0]), }?)) },
    Call { kind: Kind::Todo, label: "sequence", fields: &["sequence"], f: |a| Ok(Any::Todo(ikal::vtodo! { sequence: num::<u32>(a[0]) }?)) },
    Call { kind: Kind::Todo, label: "sequence,", fields: &["sequence"], f: |a| Ok(Any::Todo(ikal::vtodo! { sequence: num::<u32>(a[0]), }?)) },
    Call { kind: Kind::Todo, label: "status: Tentative", fields: &["status=TENTATIVE"], f: |a| Ok(Any::Todo(ikal::vtodo! { status: Tentative }?)) },
    Call { kind: Kind::Todo, label: "status: Confirmed", fields: &["status=CONFIRMED"], f: |a| Ok(Any::Todo(ikal::vtodo! { status: Confirmed }?)) },
    Call { kind: Kind::Todo, label: "status: Cancelled", fields: &["status=CANCELLED"], f: |a| Ok(Any::Todo(ikal::vtodo! { status: Cancelled }?)) },
    Call { kind: Kind::Todo, label: "status: NeedsAction", fields: &["status=NEEDS-ACTION"], f: |a| Ok(Any::Todo(ikal::vtodo! { status: NeedsAction }?)) },
    Call { kind: Kind::Todo, label: "status: Completed", fields: &["status=COMPLETED"], f: |a| Ok(Any::Todo(ikal::vtodo! { status: Completed }?)) },
    Call { kind: Kind::Todo, label: "status: InProcess", fields: &["status=IN-PROCESS"], f: |a| Ok(Any::Todo(ikal::vtodo! { status: InProcess }?)) },
    Call { kind: Kind::Todo, label: "status: Draft", fields: &["status=DRAFT"], f: |a| Ok(Any::Todo(ikal::vtodo! { status: Draft }?)) },
    Call { kind: Kind::Todo, label: "status: Final", fields: &["status=FINAL"], f: |a| Ok(Any::Todo(ikal::vtodo! { status: Final }?)) },
    Call { kind: Kind::Todo, label: "summary", fields: &["summary"], f: |a| Ok(Any::Todo(ikal::vtodo! { summary: a[0] }?)) },
    Call { kind: Kind::Todo, label: "summary,", fields: &["summary"], f: |a| Ok(Any::Todo(ikal::vtodo! { summary: a[0], }?)) },
    Call { kind: Kind::Todo, label: "url", fields: &["url"], f: |a| Ok(Any::Todo(ikal::vtodo! { url: a[0] }?)) },
    Call { kind: Kind::Todo, label: "url,", fields: &["url"], f: |a| Ok(Any::Todo(ikal::vtodo! { url: a[0], }?)) },
    Call { kind: Kind::Todo, label: "rrule", fields: &["rrule"], f: |a| Ok(Any::Todo(ikal::vtodo! { rrule: a[0] }?)) },
    Call { kind: Kind::Todo, label: "rrule,", fields: &["rrule"], f: |a| Ok(Any::Todo(ikal::vtodo! { rrule: a[0], }?)) },
    Call { kind: Kind::Todo, label: "due", fields: &["due"], f: |a| Ok(Any::Todo(ikal::vtodo! { due: a[0] }?)) },
    Call { kind: Kind::Todo, label: "due,", fields: &["due"], f: |a| Ok(Any::Todo(ikal::vtodo! { due: a[0], }?)) },
    Call { kind: Kind::Todo, label: "duration", fields: &["duration"], f: |a| Ok(Any::Todo(ikal::vtodo! { duration: a[0] }?)) },
    Call { kind: Kind::Todo, label: "duration,", fields: &["duration"], f: |a| Ok(Any::Todo(ikal::vtodo! { duration: a[0], }?)) },
    Call { kind: Kind::Todo, label: "attach", fields: &["attach"], f: |a| Ok(Any::Todo(ikal::vtodo! { attach: [a[0]] }?)) },
    Call { kind: Kind::Todo, label: "attach none", fields: &[], f: |a| Ok(Any::Todo(ikal::vtodo! { attach: [] }?)) },
    Call { kind: Kind::Todo, label: "attach two", fields: &["attach", "attach"], f: |a| Ok(Any::Todo(ikal::vtodo! { attach: [a[0], a[1]] }?)) },
    Call { kind: Kind::Todo, label: "attach three", fields: &["attach", "attach", "attach"], f: |a| Ok(Any::Todo(ikal::vtodo! { attach: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Todo, label: "attendee", fields: &["attendee"], f: |a| Ok(Any::Todo(ikal::vtodo! { attendee: [a[0]] }?)) },
    Call { kind: Kind::Todo, label: "attendee none", fields: &[], f: |a| Ok(Any::Todo(ikal::vtodo! { attendee: [] }?)) },
    Call { kind: Kind::Todo, label: "attendee two", fields: &["attendee", "attendee"], f: |a| Ok(Any::Todo(ikal::vtodo! { attendee: [a[0], a[1]] }?)) },
    Call { kind: Kind::Todo, label: "attendee three", fields: &["attendee", "attendee", "attendee"], f: |a| Ok(Any::Todo(ikal::vtodo! { attendee: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Todo, label: "categories", fields: &["categories"], f: |a| Ok(Any::Todo(ikal::vtodo! { categories: [a[0]] }?)) },
    Call { kind: Kind::Todo, label: "categories none", fields: &[], f: |a| Ok(Any::Todo(ikal::vtodo! { categories: [] }?)) },
    Call { kind: Kind::Todo, label: "categories two", fields: &["categories", "categories"], f: |a| Ok(Any::Todo(ikal::vtodo! { categories: [a[0], a[1]] }?)) },
    Call { kind: Kind::Todo, label: "categories three", fields: &["categories", "categories", "categories"], f: |a| Ok(Any::Todo(ikal::vtodo! { categories: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Todo, label: "comment", fields: &["comment"], f: |a| Ok(Any::Todo(ikal::vtodo! { comment: [a[0]] }?)) },
    Call { kind: Kind::Todo, label: "comment none", fields: &[], f: |a| Ok(Any::Todo(ikal::vtodo! { comment: [] }?)) },
    Call { kind: Kind::Todo, label: "comment two", fields: &["comment", "comment"], f: |a| Ok(Any::Todo(ikal::vtodo! { comment: [a[0], a[1]] }?)) },
    Call { kind: Kind::Todo, label: "comment three", fields: &["comment", "comment", "comment"], f: |a| Ok(Any::Todo(ikal::vtodo! { comment: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Todo, label: "contact", fields: &["contact"], f: |a| Ok(Any::Todo(ikal::vtodo! { contact: [a[0]] }?)) },
    Call { kind: Kind::Todo, label: "contact none", fields: &[], f: |a| Ok(Any::Todo(ikal::vtodo! { contact: [] }?)) },
    Call { kind: Kind::Todo, label: "contact two", fields: &["contact", "contact"], f: |a| Ok(Any::Todo(ikal::vtodo! { contact: [a[0], a[1]] }?)) },
    Call { kind: Kind::Todo, label: "contact three", fields: &["contact", "contact", "contact"], f: |a| Ok(Any::Todo(ikal::vtodo! { contact: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Todo, label: "exdate", fields: &["exdate"], f: |a| Ok(Any::Todo(ikal::vtodo! { exdate: [a[0]] }?)) },
    Call { kind: Kind::Todo, label: "exdate none", fields: &[], f: |a| Ok(Any::Todo(ikal::vtodo! { exdate: [] }?)) },
    Call { kind: Kind::Todo, label: "exdate two", fields: &["exdate", "exdate"], f: |a| Ok(Any::Todo(ikal::vtodo! { exdate: [a[0], a[1]] }?)) },
    Call { kind: Kind::Todo, label: "exdate three", fields: &["exdate", "exdate", "exdate"], f: |a| Ok(Any::Todo(ikal::vtodo! { exdate: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Todo, label: "rstatus", fields: &["rstatus"], f: |a| Ok(Any::Todo(ikal::vtodo! { rstatus: [a[0]] }?)) },
    Call { kind: Kind::Todo, label: "rstatus none", fields: &[], f: |a| Ok(Any::Todo(ikal::vtodo! { rstatus: [] }?)) },
    Call { kind: Kind::Todo, label: "rstatus two", fields: &["rstatus", "rstatus"], f: |a| Ok(Any::Todo(ikal::vtodo! { rstatus: [a[0], a[1]] }?)) },
    Call { kind: Kind::Todo, label: "rstatus three", fields: &["rstatus", "rstatus", "rstatus"], f: |a| Ok(Any::Todo(ikal::vtodo! { rstatus: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Todo, label: "rstatus object", fields: &["rstatus.statcode", "rstatus.statdesc"], f: |a| Ok(Any::Todo(ikal::vtodo! { rstatus: [{ statcode: num::<f32>(a[0]), statdesc: a[1] }] }?)) },
    Call { kind: Kind::Todo, label: "rstatus object with data", fields: &["rstatus.statcode", "rstatus.statdesc", "rstatus.extdata"], f: |a| Ok(Any::Todo(ikal::vtodo! { rstatus: [{ statcode: num::<f32>(a[0]), statdesc: a[1], extdata: a[2] }] }?)) },
    Call { kind: Kind::Todo, label: "related_to", fields: &["related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { related_to: [a[0]] }?)) },
    Call { kind: Kind::Todo, label: "related_to none", fields: &[], f: |a| Ok(Any::Todo(ikal::vtodo! { related_to: [] }?)) },
    Call { kind: Kind::Todo, label: "related_to two", fields: &["related_to", "related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { related_to: [a[0], a[1]] }?)) },
    Call { kind: Kind::Todo, label: "related_to three", fields: &["related_to", "related_to", "related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { related_to: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Todo, label: "resources", fields: &["resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { resources: [a[0]] }?)) },
    Call { kind: Kind::Todo, label: "resources none", fields: &[], f: |a| Ok(Any::Todo(ikal::vtodo! { resources: [] }?)) },
    Call { kind: Kind::Todo, label: "resources two", fields: &["resources", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { resources: [a[0], a[1]] }?)) },
    Call { kind: Kind::Todo, label: "resources three", fields: &["resources", "resources", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { resources: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Todo, label: "nothing", fields: &[], f: |a| Ok(Any::Todo(ikal::vtodo! {  }?)) },
    Call { kind: Kind::Todo, label: "uid String", fields: &["uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: a[0].to_string() }?)) },
    Call { kind: Kind::Todo, label: "uid typed", fields: &["uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: ikal::Text::from(a[0]) }?)) },
    Call { kind: Kind::Todo, label: "location String", fields: &["location"], f: |a| Ok(Any::Todo(ikal::vtodo! { location: a[0].to_string() }?)) },
    Call { kind: Kind::Todo, label: "location typed", fields: &["location"], f: |a| Ok(Any::Todo(ikal::vtodo! { location: ikal::Text::from(a[0]) }?)) },
    Call { kind: Kind::Todo, label: "organizer String", fields: &["organizer"], f: |a| Ok(Any::Todo(ikal::vtodo! { organizer: a[0].to_string() }?)) },
    Call { kind: Kind::Todo, label: "organizer typed", fields: &["organizer"], f: |a| Ok(Any::Todo(ikal::vtodo! { organizer: ikal::Uri::from(a[0]) }?)) },
    Call { kind: Kind::Todo, label: "summary String", fields: &["summary"], f: |a| Ok(Any::Todo(ikal::vtodo! { summary: a[0].to_string() }?)) },
    Call { kind: Kind::Todo, label: "summary typed", fields: &["summary"], f: |a| Ok(Any::Todo(ikal::vtodo! { summary: ikal::Text::from(a[0]) }?)) },
    Call { kind: Kind::Todo, label: "url String", fields: &["url"], f: |a| Ok(Any::Todo(ikal::vtodo! { url: a[0].to_string() }?)) },
    Call { kind: Kind::Todo, label: "url typed", fields: &["url"], f: |a| Ok(Any::Todo(ikal::vtodo! { url: ikal::Uri::from(a[0]) }?)) },
    Call { kind: Kind::Journal, label: "dtstamp", fields: &["dtstamp"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0] }?)) },
    Call { kind: Kind::Journal, label: "dtstamp,", fields: &["dtstamp"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], }?)) },
    Call { kind: Kind::Journal, label: "uid", fields: &["uid"], f: |a| Ok(Any::Journal(ikal::vjournal! { uid: a[0] }?)) },
    Call { kind: Kind::Journal, label: "uid,", fields: &["uid"], f: |a| Ok(Any::Journal(ikal::vjournal! { uid: a[0], }?)) },
    Call { kind: Kind::Journal, label: "dtstart", fields: &["dtstart"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstart: a[0] }?)) },
    Call { kind: Kind::Journal, label: "dtstart,", fields: &["dtstart"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstart: a[0], }?)) },
    Call { kind: Kind::Journal, label: "class: Public", fields: &["class=PUBLIC"], f: |a| Ok(Any::Journal(ikal::vjournal! { class: Public }?)) },
    Call { kind: Kind::Journal, label: "class: Private", fields: &["class=PRIVATE"], f: |a| Ok(Any::Journal(ikal::vjournal! { class: Private }?)) },
    Call { kind: Kind::Journal, label: "class: Confidential", fields: &["class=CONFIDENTIAL"], f: |a| Ok(Any::Journal(ikal::vjournal! { class: Confidential }?)) },
    Call { kind: Kind::Journal, label: "class: Custom", fields: &["class"], f: |a| Ok(Any::Journal(ikal::vjournal! { class: Custom(a[0].to_string()) }?)) },
    Call { kind: Kind::Journal, label: "created", fields: &["created"], f: |a| Ok(Any::Journal(ikal::vjournal! { created: a[0] }?)) },
    Call { kind: Kind::Journal, label: "created,", fields: &["created"], f: |a| Ok(Any::Journal(ikal::vjournal! { created: a[0], }?)) },
    Call { kind: Kind::Journal, label: "last_modified", fields: &["last_modified"], f: |a| Ok(Any::Journal(ikal::vjournal! { last_modified: a[0] }?)) },
    Call { kind: Kind::Journal, label: "last_modified,", fields: &["last_modified"], f: |a| Ok(Any::Journal(ikal::vjournal! { last_modified: a[0], }?)) },
    Call { kind: Kind::Journal, label: "organizer", fields: &["organizer"], f: |a| Ok(Any::Journal(ikal::vjournal! { organizer: a[0] }?)) },
    Call { kind: Kind::Journal, label: "organizer,", fields: &["organizer"], f: |a| Ok(Any::Journal(ikal::vjournal! { organizer: a[0], }?)) },
    Call { kind: Kind::Journal, label: "sequence", fields: &["sequence"], f: |a| Ok(Any::Journal(ikal::vjournal! { sequence: num::<u32>(a[0]) }?)) },
    Call { kind: Kind::Journal, label: "sequence,", fields: &["sequence"], f: |a| Ok(Any::Journal(ikal::vjournal! { sequence: num::<u32>(a[0]), }?)) },
    Call { kind: Kind::Journal, label: "status: Tentative", fields: &["status=TENTATIVE"], f: |a| Ok(Any::Journal(ikal::vjournal! { status: Tentative }?)) },
    Call { kind: Kind::Journal, label: "status: Confirmed", fields: &["status=CONFIRMED"], f: |a| Ok(Any::Journal(ikal::vjournal! { status: Confirmed }?)) },
    Call { kind: Kind::Journal, label: "status: Cancelled", fields: &["status=CANCELLED"], f: |a| Ok(Any::Journal(ikal::vjournal! { status: Cancelled }?)) },
    Call { kind: Kind::Journal, label: "status: NeedsAction", fields: &["status=NEEDS-ACTION"], f: |a| Ok(Any::Journal(ikal::vjournal! { status: NeedsAction }?)) },
    Call { kind: Kind::Journal, label: "status: Completed", fields: &["status=COMPLETED"], f: |a| Ok(Any::Journal(ikal::vjournal! { status: Completed }?)) },
    Call { kind: Kind::Journal, label: "status: InProcess", fields: &["status=IN-PROCESS"], f: |a| Ok(Any::Journal(ikal::vjournal! { status: InProcess }?)) },
    Call { kind: Kind::Journal, label: "status: Draft", fields: &["status=DRAFT"], f: |a| Ok(Any::Journal(ikal::vjournal! { status: Draft }?)) },
    Call { kind: Kind::Journal, label: "status: Final", fields: &["status=FINAL"], f: |a| Ok(Any::Journal(ikal::vjournal! { status: Final }?)) },
    Call { kind: Kind::Journal, label: "summary", fields: &["summary"], f: |a| Ok(Any::Journal(ikal::vjournal! { summary: a[0] }?)) },
    Call { kind: Kind::Journal, label: "summary,", fields: &["summary"], f: |a| Ok(Any::Journal(ikal::vjournal! { summary: a[0], }?)) },
    Call { kind: Kind::Journal, label: "url", fields: &["url"], f: |a| Ok(Any::Journal(ikal::vjournal! { url: a[0] }?)) },
    Call { kind: Kind::Journal, label: "url,", fields: &["url"], f: |a| Ok(Any::Journal(ikal::vjournal! { url: a[0], }?)) },
    Call { kind: Kind::Journal, label: "rrule", fields: &["rrule"], f: |a| Ok(Any::Journal(ikal::vjournal! { rrule: a[0] }?)) },
    Call { kind: Kind::Journal, label: "rrule,", fields: &["rrule"], f: |a| Ok(Any::Journal(ikal::vjournal! { rrule: a[0], }?)) },
    Call { kind: Kind::Journal, label: "attach", fields: &["attach"], f: |a| Ok(Any::Journal(ikal::vjournal! { attach: [a[0]] }?)) },
    Call { kind: Kind::Journal, label: "attach none", fields: &[], f: |a| Ok(Any::Journal(ikal::vjournal! { attach: [] }?)) },
    Call { kind: Kind::Journal, label: "attach two", fields: &["attach", "attach"], f: |a| Ok(Any::Journal(ikal::vjournal! { attach: [a[0], a[1]] }?)) },
    Call { kind: Kind::Journal, label: "attach three", fields: &["attach", "attach", "attach"], f: |a| Ok(Any::Journal(ikal::vjournal! { attach: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Journal, label: "attendee", fields: &["attendee"], f: |a| Ok(Any::Journal(ikal::vjournal! { attendee: [a[0]] }?)) },
    Call { kind: Kind::Journal, label: "attendee none", fields: &[], f: |a| Ok(Any::Journal(ikal::vjournal! { attendee: [] }?)) },
    Call { kind: Kind::Journal, label: "attendee two", fields: &["attendee", "attendee"], f: |a| Ok(Any::Journal(ikal::vjournal! { attendee: [a[0], a[1]] }?)) },
    Call { kind: Kind::Journal, label: "attendee three", fields: &["attendee", "attendee", "attendee"], f: |a| Ok(Any::Journal(ikal::vjournal! { attendee: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Journal, label: "categories", fields: &["categories"], f: |a| Ok(Any::Journal(ikal::vjournal! { categories: [a[0]] }?)) },
    Call { kind: Kind::Journal, label: "categories none", fields: &[], f: |a| Ok(Any::Journal(ikal::vjournal! { categories: [] }?)) },
    Call { kind: Kind::Journal, label: "categories two", fields: &["categories", "categories"], f: |a| Ok(Any::Journal(ikal::vjournal! { categories: [a[0], a[1]] }?)) },
    Call { kind: Kind::Journal, label: "categories three", fields: &["categories", "categories", "categories"], f: |a| Ok(Any::Journal(ikal::vjournal! { categories: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Journal, label: "comment", fields: &["comment"], f: |a| Ok(Any::Journal(ikal::vjournal! { comment: [a[0]] }?)) },
    Call { kind: Kind::Journal, label: "comment none", fields: &[], f: |a| Ok(Any::Journal(ikal::vjournal! { comment: [] }?)) },
    Call { kind: Kind::Journal, label: "comment two", fields: &["comment", "comment"], f: |a| Ok(Any::Journal(ikal::vjournal! { comment: [a[0], a[1]] }?)) },
    Call { kind: Kind::Journal, label: "comment three", fields: &["comment", "comment", "comment"], f: |a| Ok(Any::Journal(ikal::vjournal! { comment: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Journal, label: "contact", fields: &["contact"], f: |a| Ok(Any::Journal(ikal::vjournal! { contact: [a[0]] }?)) },
    Call { kind: Kind::Journal, label: "contact none", fields: &[], f: |a| Ok(Any::Journal(ikal::vjournal! { contact: [] }?)) },
    Call { kind: Kind::Journal, label: "contact two", fields: &["contact", "contact"], f: |a| Ok(Any::Journal(ikal::vjournal! { contact: [a[0], a[1]] }?)) },
    Call { kind: Kind::Journal, label: "contact three", fields: &["contact", "contact", "contact"], f: |a| Ok(Any::Journal(ikal::vjournal! { contact: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Journal, label: "description", fields: &["description"], f: |a| Ok(Any::Journal(ikal::vjournal! { description: [a[0]] }?)) },
    Call { kind: Kind::Journal, label: "description none", fields: &[], f: |a| Ok(Any::Journal(ikal::vjournal! { description: [] }?)) },
    Call { kind: Kind::Journal, label: "description two", fields: &["description", "description"], f: |a| Ok(Any::Journal(ikal::vjournal! { description: [a[0], a[1]] }?)) },
    Call { kind: Kind::Journal, label: "description three", fields: &["description", "description", "description"], f: |a| Ok(Any::Journal(ikal::vjournal! { description: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Journal, label: "exdate", fields: &["exdate"], f: |a| Ok(Any::Journal(ikal::vjournal! { exdate: [a[0]] }?)) },
    Call { kind: Kind::Journal, label: "exdate none", fields: &[], f: |a| Ok(Any::Journal(ikal::vjournal! { exdate: [] }?)) },
    Call { kind: Kind::Journal, label: "exdate two", fields: &["exdate", "exdate"], f: |a| Ok(Any::Journal(ikal::vjournal! { exdate: [a[0], a[1]] }?)) },
    Call { kind: Kind::Journal, label: "exdate three", fields: &["exdate", "exdate", "exdate"], f: |a| Ok(Any::Journal(ikal::vjournal! { exdate: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Journal, label: "related_to", fields: &["related_to"], f: |a| Ok(Any::Journal(ikal::vjournal! { related_to: [a[0]] }?)) },
    Call { kind: Kind::Journal, label: "related_to none", fields: &[], f: |a| Ok(Any::Journal(ikal::vjournal! { related_to: [] }?)) },
    Call { kind: Kind::Journal, label: "related_to two", fields: &["related_to", "related_to"], f: |a| Ok(Any::Journal(ikal::vjournal! { related_to: [a[0], a[1]] }?)) },
    Call { kind: Kind::Journal, label: "related_to three", fields: &["related_to", "related_to", "related_to"], f: |a| Ok(Any::Journal(ikal::vjournal! { related_to: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Journal, label: "rstatus", fields: &["rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { rstatus: [a[0]] }?)) },
    Call { kind: Kind::Journal, label: "rstatus none", fields: &[], f: |a| Ok(Any::Journal(ikal::vjournal! { rstatus: [] }?)) },
    Call { kind: Kind::Journal, label: "rstatus two", fields: &["rstatus", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { rstatus: [a[0], a[1]] }?)) },
    Call { kind: Kind::Journal, label: "rstatus three", fields: &["rstatus", "rstatus", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { rstatus: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Journal, label: "rstatus object", fields: &["rstatus.statcode", "rstatus.statdesc"], f: |a| Ok(Any::Journal(ikal::vjournal! { rstatus: [{ statcode: num::<f32>(a[0]), statdesc: a[1] }] }?)) },
    Call { kind: Kind::Journal, label: "rstatus object with data", fields: &["rstatus.statcode", "rstatus.statdesc", "rstatus.extdata"], f: |a| Ok(Any::Journal(ikal::vjournal! { rstatus: [{ statcode: num::<f32>(a[0]), statdesc: a[1], extdata: a[2] }] }?)) },
    Call { kind: Kind::Journal, label: "nothing", fields: &[], f: |a| Ok(Any::Journal(ikal::vjournal! {  }?)) },
    Call { kind: Kind::Journal, label: "uid String", fields: &["uid"], f: |a| Ok(Any::Journal(ikal::vjournal! { uid: a[0].to_string() }?)) },
    Call { kind: Kind::Journal, label: "uid typed", fields: &["uid"], f: |a| Ok(Any::Journal(ikal::vjournal! { uid: ikal::Text::from(a[0]) }?)) },
    Call { kind: Kind::Journal, label: "organizer String", fields: &["organizer"], f: |a| Ok(Any::Journal(ikal::vjournal! { organizer: a[0].to_string() }?)) },
    Call { kind: Kind::Journal, label: "organizer typed", fields: &["organizer"], f: |a| Ok(Any::Journal(ikal::vjournal! { organizer: ikal::Uri::from(a[0]) }?)) },
    Call { kind: Kind::Journal, label: "summary String", fields: &["summary"], f: |a| Ok(Any::Journal(ikal::vjournal! { summary: a[0].to_string() }?)) },
    Call { kind: Kind::Journal, label: "summary typed", fields: &["summary"], f: |a| Ok(Any::Journal(ikal::vjournal! { summary: ikal::Text::from(a[0]) }?)) },
    Call { kind: Kind::Journal, label: "url String", fields: &["url"], f: |a| Ok(Any::Journal(ikal::vjournal! { url: a[0].to_string() }?)) },
    Call { kind: Kind::Journal, label: "url typed", fields: &["url"], f: |a| Ok(Any::Journal(ikal::vjournal! { url: ikal::Uri::from(a[0]) }?)) },
    Call { kind: Kind::Freebusy, label: "dtstamp", fields: &["dtstamp"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0] }?)) },
    Call { kind: Kind::Freebusy, label: "dtstamp,", fields: &["dtstamp"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], }?)) },
    Call { kind: Kind::Freebusy, label: "uid", fields: &["uid"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { uid: a[0] }?)) },
    Call { kind: Kind::Freebusy, label: "uid,", fields: &["uid"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { uid: a[0], }?)) },
    Call { kind: Kind::Freebusy, label: "contact", fields: &["contact"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { contact: a[0] }?)) },
    Call { kind: Kind::Freebusy, label: "contact,", fields: &["contact"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { contact: a[0], }?)) },
    Call { kind: Kind::Freebusy, label: "dtstart", fields: &["dtstart"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstart: a[0] }?)) },
    Call { kind: Kind::Freebusy, label: "dtstart,", fields: &["dtstart"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstart: a[0], }?)) },
    Call { kind: Kind::Freebusy, label: "dtend", fields: &["dtend"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtend: a[0] }?)) },
    Call { kind: Kind::Freebusy, label: "dtend,", fields: &["dtend"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtend: a[0], }?)) },
    Call { kind: Kind::Freebusy, label: "organizer", fields: &["organizer"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { organizer: a[0] }?)) },
    Call { kind: Kind::Freebusy, label: "organizer,", fields: &["organizer"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { organizer: a[0], }?)) },
    Call { kind: Kind::Freebusy, label: "url", fields: &["url"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { url: a[0] }?)) },
    Call { kind: Kind::Freebusy, label: "url,", fields: &["url"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { url: a[0], }?)) },
    Call { kind: Kind::Freebusy, label: "attendee", fields: &["attendee"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { attendee: [a[0]] }?)) },
    Call { kind: Kind::Freebusy, label: "attendee none", fields: &[], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { attendee: [] }?)) },
    Call { kind: Kind::Freebusy, label: "attendee two", fields: &["attendee", "attendee"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { attendee: [a[0], a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "attendee three", fields: &["attendee", "attendee", "attendee"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { attendee: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Freebusy, label: "comment", fields: &["comment"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { comment: [a[0]] }?)) },
    Call { kind: Kind::Freebusy, label: "comment none", fields: &[], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { comment: [] }?)) },
    Call { kind: Kind::Freebusy, label: "comment two", fields: &["comment", "comment"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { comment: [a[0], a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "comment three", fields: &["comment", "comment", "comment"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { comment: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Freebusy, label: "freebusy", fields: &["freebusy"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { freebusy: [a[0]] }?)) },
    Call { kind: Kind::Freebusy, label: "freebusy none", fields: &[], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { freebusy: [] }?)) },
    Call { kind: Kind::Freebusy, label: "freebusy two", fields: &["freebusy", "freebusy"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { freebusy: [a[0], a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "freebusy three", fields: &["freebusy", "freebusy", "freebusy"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { freebusy: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Freebusy, label: "rstatus", fields: &["rstatus"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { rstatus: [a[0]] }?)) },
    Call { kind: Kind::Freebusy, label: "rstatus none", fields: &[], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { rstatus: [] }?)) },
    Call { kind: Kind::Freebusy, label: "rstatus two", fields: &["rstatus", "rstatus"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { rstatus: [a[0], a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "rstatus three", fields: &["rstatus", "rstatus", "rstatus"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { rstatus: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Freebusy, label: "rstatus object", fields: &["rstatus.statcode", "rstatus.statdesc"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { rstatus: [{ statcode: num::<f32>(a[0]), statdesc: a[1] }] }?)) },
    Call { kind: Kind::Freebusy, label: "rstatus object with data", fields: &["rstatus.statcode", "rstatus.statdesc", "rstatus.extdata"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { rstatus: [{ statcode: num::<f32>(a[0]), statdesc: a[1], extdata: a[2] }] }?)) },
    Call { kind: Kind::Freebusy, label: "nothing", fields: &[], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! {  }?)) },
    Call { kind: Kind::Freebusy, label: "uid String", fields: &["uid"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { uid: a[0].to_string() }?)) },
    Call { kind: Kind::Freebusy, label: "uid typed", fields: &["uid"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { uid: ikal::Text::from(a[0]) }?)) },
    Call { kind: Kind::Freebusy, label: "contact String", fields: &["contact"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { contact: a[0].to_string() }?)) },
    Call { kind: Kind::Freebusy, label: "contact typed", fields: &["contact"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { contact: ikal::Text::from(a[0]) }?)) },
    Call { kind: Kind::Freebusy, label: "organizer String", fields: &["organizer"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { organizer: a[0].to_string() }?)) },
    Call { kind: Kind::Freebusy, label: "organizer typed", fields: &["organizer"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { organizer: ikal::Uri::from(a[0]) }?)) },
    Call { kind: Kind::Freebusy, label: "url String", fields: &["url"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { url: a[0].to_string() }?)) },
    Call { kind: Kind::Freebusy, label: "url typed", fields: &["url"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { url: ikal::Uri::from(a[0]) }?)) },
    Call { kind: Kind::Timezone, label: "tzid", fields: &["tzid"], f: |a| Ok(Any::Timezone(ikal::vtimezone! { tzid: a[0] }?)) },
    Call { kind: Kind::Timezone, label: "tzid,", fields: &["tzid"], f: |a| Ok(Any::Timezone(ikal::vtimezone! { tzid: a[0], }?)) },
    Call { kind: Kind::Timezone, label: "last_modified", fields: &["last_modified"], f: |a| Ok(Any::Timezone(ikal::vtimezone! { last_modified: a[0] }?)) },
    Call { kind: Kind::Timezone, label: "last_modified,", fields: &["last_modified"], f: |a| Ok(Any::Timezone(ikal::vtimezone! { last_modified: a[0], }?)) },
    Call { kind: Kind::Timezone, label: "tzurl", fields: &["tzurl"], f: |a| Ok(Any::Timezone(ikal::vtimezone! { tzurl: a[0] }?)) },
    Call { kind: Kind::Timezone, label: "tzurl,", fields: &["tzurl"], f: |a| Ok(Any::Timezone(ikal::vtimezone! { tzurl: a[0], }?)) },
    Call { kind: Kind::Timezone, label: "nothing", fields: &[], f: |a| Ok(Any::Timezone(ikal::vtimezone! {  }?)) },
    Call { kind: Kind::Timezone, label: "tzid String", fields: &["tzid"], f: |a| Ok(Any::Timezone(ikal::vtimezone! { tzid: a[0].to_string() }?)) },
    Call { kind: Kind::Timezone, label: "tzid typed", fields: &["tzid"], f: |a| Ok(Any::Timezone(ikal::vtimezone! { tzid: ikal::Text::from(a[0]) }?)) },
    Call { kind: Kind::Timezone, label: "tzurl String", fields: &["tzurl"], f: |a| Ok(Any::Timezone(ikal::vtimezone! { tzurl: a[0].to_string() }?)) },
    Call { kind: Kind::Timezone, label: "tzurl typed", fields: &["tzurl"], f: |a| Ok(Any::Timezone(ikal::vtimezone! { tzurl: ikal::Uri::from(a[0]) }?)) },
    Call { kind: Kind::Standard, label: "dtstart", fields: &["dtstart"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ dtstart: a[0] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "dtstart,", fields: &["dtstart"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ dtstart: a[0], }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "tzoffsetto", fields: &["tzoffsetto"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ tzoffsetto: a[0] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "tzoffsetto,", fields: &["tzoffsetto"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ tzoffsetto: a[0], }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "tzoffsetfrom", fields: &["tzoffsetfrom"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ tzoffsetfrom: a[0] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "tzoffsetfrom,", fields: &["tzoffsetfrom"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ tzoffsetfrom: a[0], }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "rrule", fields: &["rrule"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ rrule: a[0] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "rrule,", fields: &["rrule"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ rrule: a[0], }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "comment", fields: &["comment"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ comment: [a[0]] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "comment none", fields: &[], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ comment: [] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "comment two", fields: &["comment", "comment"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ comment: [a[0], a[1]] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "comment three", fields: &["comment", "comment", "comment"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ comment: [a[0], a[1], a[2]], }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "tzname", fields: &["tzname"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ tzname: [a[0]] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "tzname none", fields: &[], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ tzname: [] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "tzname two", fields: &["tzname", "tzname"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ tzname: [a[0], a[1]] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "tzname three", fields: &["tzname", "tzname", "tzname"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ tzname: [a[0], a[1], a[2]], }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "nothing", fields: &[], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{  }] }?.standard.remove(0))) },
    Call { kind: Kind::Daylight, label: "dtstart", fields: &["dtstart"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ dtstart: a[0] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "dtstart,", fields: &["dtstart"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ dtstart: a[0], }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "tzoffsetto", fields: &["tzoffsetto"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ tzoffsetto: a[0] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "tzoffsetto,", fields: &["tzoffsetto"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ tzoffsetto: a[0], }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "tzoffsetfrom", fields: &["tzoffsetfrom"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ tzoffsetfrom: a[0] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "tzoffsetfrom,", fields: &["tzoffsetfrom"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ tzoffsetfrom: a[0], }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "rrule", fields: &["rrule"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ rrule: a[0] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "rrule,", fields: &["rrule"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ rrule: a[0], }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "comment", fields: &["comment"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ comment: [a[0]] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "comment none", fields: &[], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ comment: [] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "comment two", fields: &["comment", "comment"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ comment: [a[0], a[1]] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "comment three", fields: &["comment", "comment", "comment"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ comment: [a[0], a[1], a[2]], }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "tzname", fields: &["tzname"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ tzname: [a[0]] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "tzname none", fields: &[], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ tzname: [] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "tzname two", fields: &["tzname", "tzname"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ tzname: [a[0], a[1]] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "tzname three", fields: &["tzname", "tzname", "tzname"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ tzname: [a[0], a[1], a[2]], }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "nothing", fields: &[], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{  }] }?.daylight.remove(0))) },
    Call { kind: Kind::Audio, label: "action", fields: &["action"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, action: a[0] }?)) },
    Call { kind: Kind::Audio, label: "action,", fields: &["action"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, action: a[0], }?)) },
    Call { kind: Kind::Audio, label: "trigger", fields: &["trigger"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, trigger: a[0] }?)) },
    Call { kind: Kind::Audio, label: "trigger,", fields: &["trigger"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, trigger: a[0], }?)) },
    Call { kind: Kind::Audio, label: "duration", fields: &["duration"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, duration: a[0] }?)) },
    Call { kind: Kind::Audio, label: "duration,", fields: &["duration"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, duration: a[0], }?)) },
    Call { kind: Kind::Audio, label: "repeat", fields: &["repeat"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, repeat: num::<u32>(a[0]) }?)) },
    Call { kind: Kind::Audio, label: "repeat,", fields: &["repeat"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, repeat: num::<u32>(a[0]), }?)) },
    Call { kind: Kind::Audio, label: "attach", fields: &["attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, attach: [a[0]] }?)) },
    Call { kind: Kind::Audio, label: "attach none", fields: &[], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, attach: [] }?)) },
    Call { kind: Kind::Audio, label: "attach two", fields: &["attach", "attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, attach: [a[0], a[1]] }?)) },
    Call { kind: Kind::Audio, label: "attach three", fields: &["attach", "attach", "attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, attach: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Audio, label: "nothing", fields: &[], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio,  }?)) },
    Call { kind: Kind::Audio, label: "action String", fields: &["action"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, action: a[0].to_string() }?)) },
    Call { kind: Kind::Audio, label: "action typed", fields: &["action"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, action: ikal::Text::from(a[0]) }?)) },
    Call { kind: Kind::Display, label: "action", fields: &["action"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, action: a[0] }?)) },
    Call { kind: Kind::Display, label: "action,", fields: &["action"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, action: a[0], }?)) },
    Call { kind: Kind::Display, label: "trigger", fields: &["trigger"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, trigger: a[0] }?)) },
    Call { kind: Kind::Display, label: "trigger,", fields: &["trigger"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, trigger: a[0], }?)) },
    Call { kind: Kind::Display, label: "description", fields: &["description"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, description: a[0] }?)) },
    Call { kind: Kind::Display, label: "description,", fields: &["description"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, description: a[0], }?)) },
    Call { kind: Kind::Display, label: "duration", fields: &["duration"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, duration: a[0] }?)) },
    Call { kind: Kind::Display, label: "duration,", fields: &["duration"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, duration: a[0], }?)) },
    Call { kind: Kind::Display, label: "repeat", fields: &["repeat"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, repeat: num::<u32>(a[0]) }?)) },
    Call { kind: Kind::Display, label: "repeat,", fields: &["repeat"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, repeat: num::<u32>(a[0]), }?)) },
    Call { kind: Kind::Display, label: "nothing", fields: &[], f: |a| Ok(Any::Alarm(ikal::valarm! { @display,  }?)) },
    Call { kind: Kind::Display, label: "action String", fields: &["action"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, action: a[0].to_string() }?)) },
    Call { kind: Kind::Display, label: "action typed", fields: &["action"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, action: ikal::Text::from(a[0]) }?)) },
    Call { kind: Kind::Display, label: "description String", fields: &["description"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, description: a[0].to_string() }?)) },
    Call { kind: Kind::Display, label: "description typed", fields: &["description"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, description: ikal::Text::from(a[0]) }?)) },
    Call { kind: Kind::Email, label: "action", fields: &["action"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, action: a[0] }?)) },
    Call { kind: Kind::Email, label: "action,", fields: &["action"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, action: a[0], }?)) },
    Call { kind: Kind::Email, label: "trigger", fields: &["trigger"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, trigger: a[0] }?)) },
    Call { kind: Kind::Email, label: "trigger,", fields: &["trigger"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, trigger: a[0], }?)) },
    Call { kind: Kind::Email, label: "description", fields: &["description"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, description: a[0] }?)) },
    Call { kind: Kind::Email, label: "description,", fields: &["description"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, description: a[0], }?)) },
    Call { kind: Kind::Email, label: "summary", fields: &["summary"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, summary: a[0] }?)) },
    Call { kind: Kind::Email, label: "summary,", fields: &["summary"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, summary: a[0], }?)) },
    Call { kind: Kind::Email, label: "attendee", fields: &["attendee"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, attendee: [a[0]] }?)) },
    Call { kind: Kind::Email, label: "attendee none", fields: &[], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, attendee: [] }?)) },
    Call { kind: Kind::Email, label: "attendee two", fields: &["attendee", "attendee"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, attendee: [a[0], a[1]] }?)) },
    Call { kind: Kind::Email, label: "attendee three", fields: &["attendee", "attendee", "attendee"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, attendee: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Email, label: "duration", fields: &["duration"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, duration: a[0] }?)) },
    Call { kind: Kind::Email, label: "duration,", fields: &["duration"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, duration: a[0], }?)) },
    Call { kind: Kind::Email, label: "repeat", fields: &["repeat"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, repeat: num::<u32>(a[0]) }?)) },
    Call { kind: Kind::Email, label: "repeat,", fields: &["repeat"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, repeat: num::<u32>(a[0]), }?)) },
    Call { kind: Kind::Email, label: "attach", fields: &["attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, attach: [a[0]] }?)) },
    Call { kind: Kind::Email, label: "attach none", fields: &[], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, attach: [] }?)) },
    Call { kind: Kind::Email, label: "attach two", fields: &["attach", "attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, attach: [a[0], a[1]] }?)) },
    Call { kind: Kind::Email, label: "attach three", fields: &["attach", "attach", "attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, attach: [a[0], a[1], a[2]], }?)) },
    Call { kind: Kind::Email, label: "nothing", fields: &[], f: |a| Ok(Any::Alarm(ikal::valarm! { @email,  }?)) },
    Call { kind: Kind::Email, label: "action String", fields: &["action"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, action: a[0].to_string() }?)) },
    Call { kind: Kind::Email, label: "action typed", fields: &["action"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, action: ikal::Text::from(a[0]) }?)) },
    Call { kind: Kind::Email, label: "description String", fields: &["description"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, description: a[0].to_string() }?)) },
    Call { kind: Kind::Email, label: "description typed", fields: &["description"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, description: ikal::Text::from(a[0]) }?)) },
    Call { kind: Kind::Email, label: "summary String", fields: &["summary"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, summary: a[0].to_string() }?)) },
    Call { kind: Kind::Email, label: "summary typed", fields: &["summary"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, summary: ikal::Text::from(a[0]) }?)) },
];

pub const PAIRS: &[Call] = &[
    Call { kind: Kind::Calendar, label: "prodid version", fields: &["prodid", "version"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { prodid: a[0], version: a[1] }?)) },
    Call { kind: Kind::Calendar, label: "prodid calscale", fields: &["prodid", "calscale"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { prodid: a[0], calscale: a[1] }?)) },
    Call { kind: Kind::Calendar, label: "prodid method", fields: &["prodid", "method"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { prodid: a[0], method: a[1] }?)) },
    Call { kind: Kind::Calendar, label: "version calscale", fields: &["version", "calscale"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { version: a[0], calscale: a[1] }?)) },
    Call { kind: Kind::Calendar, label: "version method", fields: &["version", "method"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { version: a[0], method: a[1] }?)) },
    Call { kind: Kind::Calendar, label: "calscale method", fields: &["calscale", "method"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { calscale: a[0], method: a[1] }?)) },
    Call { kind: Kind::Event, label: "dtstamp uid", fields: &["dtstamp", "uid"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1] }?)) },
    Call { kind: Kind::Event, label: "dtstamp dtstart", fields: &["dtstamp", "dtstart"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], dtstart: a[1] }?)) },
    Call { kind: Kind::Event, label: "dtstamp class", fields: &["dtstamp", "class=CONFIDENTIAL"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], class: Confidential }?)) },
    Call { kind: Kind::Event, label: "dtstamp created", fields: &["dtstamp", "created"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], created: a[1] }?)) },
    Call { kind: Kind::Event, label: "dtstamp description", fields: &["dtstamp", "description"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], description: a[1] }?)) },
    Call { kind: Kind::Event, label: "dtstamp geo", fields: &["dtstamp", "geo"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], geo: a[1] }?)) },
    Call { kind: Kind::Event, label: "dtstamp last_modified", fields: &["dtstamp", "last_modified"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], last_modified: a[1] }?)) },
    Call { kind: Kind::Event, label: "dtstamp location", fields: &["dtstamp", "location"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], location: a[1] }?)) },
    Call { kind: Kind::Event, label: "dtstamp organizer", fields: &["dtstamp", "organizer"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], organizer: a[1] }?)) },
    Call { kind: Kind::Event, label: "dtstamp priority", fields: &["dtstamp", "priority"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], priority: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Event, label: "dtstamp sequence", fields: &["dtstamp", "sequence"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], sequence: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Event, label: "dtstamp status", fields: &["dtstamp", "status=IN-PROCESS"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], status: InProcess }?)) },
    Call { kind: Kind::Event, label: "dtstamp summary", fields: &["dtstamp", "summary"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], summary: a[1] }?)) },
    Call { kind: Kind::Event, label: "dtstamp transp", fields: &["dtstamp", "transp=TRANSPARENT"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], transp: Transparent }?)) },
    Call { kind: Kind::Event, label: "dtstamp url", fields: &["dtstamp", "url"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], url: a[1] }?)) },
    Call { kind: Kind::Event, label: "dtstamp rrule", fields: &["dtstamp", "rrule"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], rrule: a[1] }?)) },
    Call { kind: Kind::Event, label: "dtstamp dtend", fields: &["dtstamp", "dtend"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], dtend: a[1] }?)) },
    Call { kind: Kind::Event, label: "dtstamp duration", fields: &["dtstamp", "duration"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Event, label: "dtstamp attach", fields: &["dtstamp", "attach"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "dtstamp attendee", fields: &["dtstamp", "attendee"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "dtstamp categories", fields: &["dtstamp", "categories"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "dtstamp comment", fields: &["dtstamp", "comment"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "dtstamp contact", fields: &["dtstamp", "contact"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "dtstamp exdate", fields: &["dtstamp", "exdate"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "dtstamp rstatus", fields: &["dtstamp", "rstatus"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "dtstamp related_to", fields: &["dtstamp", "related_to"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "dtstamp resources", fields: &["dtstamp", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], resources: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "uid dtstart", fields: &["uid", "dtstart"], f: |a| Ok(Any::Event(ikal::vevent! { uid: a[0], dtstart: a[1] }?)) },
    Call { kind: Kind::Event, label: "uid class", fields: &["uid", "class=CONFIDENTIAL"], f: |a| Ok(Any::Event(ikal::vevent! { uid: a[0], class: Confidential }?)) },
    Call { kind: Kind::Event, label: "uid created", fields: &["uid", "created"], f: |a| Ok(Any::Event(ikal::vevent! { uid: a[0], created: a[1] }?)) },
    Call { kind: Kind::Event, label: "uid description", fields: &["uid", "description"], f: |a| Ok(Any::Event(ikal::vevent! { uid: a[0], description: a[1] }?)) },
    Call { kind: Kind::Event, label: "uid geo", fields: &["uid", "geo"], f: |a| Ok(Any::Event(ikal::vevent! { uid: a[0], geo: a[1] }?)) },
    Call { kind: Kind::Event, label: "uid last_modified", fields: &["uid", "last_modified"], f: |a| Ok(Any::Event(ikal::vevent! { uid: a[0], last_modified: a[1] }?)) },
    Call { kind: Kind::Event, label: "uid location", fields: &["uid", "location"], f: |a| Ok(Any::Event(ikal::vevent! { uid: a[0], location: a[1] }?)) },
    Call { kind: Kind::Event, label: "uid organizer", fields: &["uid", "organizer"], f: |a| Ok(Any::Event(ikal::vevent! { uid: a[0], organizer: a[1] }?)) },
    Call { kind: Kind::Event, label: "uid priority", fields: &["uid", "priority"], f: |a| Ok(Any::Event(ikal::vevent! { uid: a[0], priority: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Event, label: "uid sequence", fields: &["uid", "sequence"], f: |a| Ok(Any::Event(ikal::vevent! { uid: a[0], sequence: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Event, label: "uid status", fields: &["uid", "status=IN-PROCESS"], f: |a| Ok(Any::Event(ikal::vevent! { uid: a[0], status: InProcess }?)) },
    Call { kind: Kind::Event, label: "uid summary", fields: &["uid", "summary"], f: |a| Ok(Any::Event(ikal::vevent! { uid: a[0], summary: a[1] }?)) },
    Call { kind: Kind::Event, label: "uid transp", fields: &["uid", "transp=TRANSPARENT"], f: |a| Ok(Any::Event(ikal::vevent! { uid: a[0], transp: Transparent }?)) },
    Call { kind: Kind::Event, label: "uid url", fields: &["uid", "url"], f: |a| Ok(Any::Event(ikal::vevent! { uid: a[0], url: a[1] }?)) },
    Call { kind: Kind::Event, label: "uid rrule", fields: &["uid", "rrule"], f: |a| Ok(Any::Event(ikal::vevent! { uid: a[0], rrule: a[1] }?)) },
    Call { kind: Kind::Event, label: "uid dtend", fields: &["uid", "dtend"], f: |a| Ok(Any::Event(ikal::vevent! { uid: a[0], dtend: a[1] }?)) },
    Call { kind: Kind::Event, label: "uid duration", fields: &["uid", "duration"], f: |a| Ok(Any::Event(ikal::vevent! { uid: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Event, label: "uid attach", fields: &["uid", "attach"], f: |a| Ok(Any::Event(ikal::vevent! { uid: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "uid attendee", fields: &["uid", "attendee"], f: |a| Ok(Any::Event(ikal::vevent! { uid: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "uid categories", fields: &["uid", "categories"], f: |a| Ok(Any::Event(ikal::vevent! { uid: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "uid comment", fields: &["uid", "comment"], f: |a| Ok(Any::Event(ikal::vevent! { uid: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "uid contact", fields: &["uid", "contact"], f: |a| Ok(Any::Event(ikal::vevent! { uid: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "uid exdate", fields: &["uid", "exdate"], f: |a| Ok(Any::Event(ikal::vevent! { uid: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "uid rstatus", fields: &["uid", "rstatus"], f: |a| Ok(Any::Event(ikal::vevent! { uid: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "uid related_to", fields: &["uid", "related_to"], f: |a| Ok(Any::Event(ikal::vevent! { uid: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "uid resources", fields: &["uid", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { uid: a[0], resources: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "dtstart class", fields: &["dtstart", "class=CONFIDENTIAL"], f: |a| Ok(Any::Event(ikal::vevent! { dtstart: a[0], class: Confidential }?)) },
    Call { kind: Kind::Event, label: "dtstart created", fields: &["dtstart", "created"], f: |a| Ok(Any::Event(ikal::vevent! { dtstart: a[0], created: a[1] }?)) },
    Call { kind: Kind::Event, label: "dtstart description", fields: &["dtstart", "description"], f: |a| Ok(Any::Event(ikal::vevent! { dtstart: a[0], description: a[1] }?)) },
    Call { kind: Kind::Event, label: "dtstart geo", fields: &["dtstart", "geo"], f: |a| Ok(Any::Event(ikal::vevent! { dtstart: a[0], geo: a[1] }?)) },
    Call { kind: Kind::Event, label: "dtstart last_modified", fields: &["dtstart", "last_modified"], f: |a| Ok(Any::Event(ikal::vevent! { dtstart: a[0], last_modified: a[1] }?)) },
    Call { kind: Kind::Event, label: "dtstart location", fields: &["dtstart", "location"], f: |a| Ok(Any::Event(ikal::vevent! { dtstart: a[0], location: a[1] }?)) },
    Call { kind: Kind::Event, label: "dtstart organizer", fields: &["dtstart", "organizer"], f: |a| Ok(Any::Event(ikal::vevent! { dtstart: a[0], organizer: a[1] }?)) },
    Call { kind: Kind::Event, label: "dtstart priority", fields: &["dtstart", "priority"], f: |a| Ok(Any::Event(ikal::vevent! { dtstart: a[0], priority: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Event, label: "dtstart sequence", fields: &["dtstart", "sequence"], f: |a| Ok(Any::Event(ikal::vevent! { dtstart: a[0], sequence: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Event, label: "dtstart status", fields: &["dtstart", "status=IN-PROCESS"], f: |a| Ok(Any::Event(ikal::vevent! { dtstart: a[0], status: InProcess }?)) },
    Call { kind: Kind::Event, label: "dtstart summary", fields: &["dtstart", "summary"], f: |a| Ok(Any::Event(ikal::vevent! { dtstart: a[0], summary: a[1] }?)) },
    Call { kind: Kind::Event, label: "dtstart transp", fields: &["dtstart", "transp=TRANSPARENT"], f: |a| Ok(Any::Event(ikal::vevent! { dtstart: a[0], transp: Transparent }?)) },
    Call { kind: Kind::Event, label: "dtstart url", fields: &["dtstart", "url"], f: |a| Ok(Any::Event(ikal::vevent! { dtstart: a[0], url: a[1] }?)) },
    Call { kind: Kind::Event, label: "dtstart rrule", fields: &["dtstart", "rrule"], f: |a| Ok(Any::Event(ikal::vevent! { dtstart: a[0], rrule: a[1] }?)) },
    Call { kind: Kind::Event, label: "dtstart dtend", fields: &["dtstart", "dtend"], f: |a| Ok(Any::Event(ikal::vevent! { dtstart: a[0], dtend: a[1] }?)) },
    Call { kind: Kind::Event, label: "dtstart duration", fields: &["dtstart", "duration"], f: |a| Ok(Any::Event(ikal::vevent! { dtstart: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Event, label: "dtstart attach", fields: &["dtstart", "attach"], f: |a| Ok(Any::Event(ikal::vevent! { dtstart: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "dtstart attendee", fields: &["dtstart", "attendee"], f: |a| Ok(Any::Event(ikal::vevent! { dtstart: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "dtstart categories", fields: &["dtstart", "categories"], f: |a| Ok(Any::Event(ikal::vevent! { dtstart: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "dtstart comment", fields: &["dtstart", "comment"], f: |a| Ok(Any::Event(ikal::vevent! { dtstart: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "dtstart contact", fields: &["dtstart", "contact"], f: |a| Ok(Any::Event(ikal::vevent! { dtstart: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "dtstart exdate", fields: &["dtstart", "exdate"], f: |a| Ok(Any::Event(ikal::vevent! { dtstart: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "dtstart rstatus", fields: &["dtstart", "rstatus"], f: |a| Ok(Any::Event(ikal::vevent! { dtstart: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "dtstart related_to", fields: &["dtstart", "related_to"], f: |a| Ok(Any::Event(ikal::vevent! { dtstart: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "dtstart resources", fields: &["dtstart", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtstart: a[0], resources: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "class created", fields: &["class=CONFIDENTIAL", "created"], f: |a| Ok(Any::Event(ikal::vevent! { class: Confidential, created: a[1] }?)) },
    Call { kind: Kind::Event, label: "class description", fields: &["class=CONFIDENTIAL", "description"], f: |a| Ok(Any::Event(ikal::vevent! { class: Confidential, description: a[1] }?)) },
    Call { kind: Kind::Event, label: "class geo", fields: &["class=CONFIDENTIAL", "geo"], f: |a| Ok(Any::Event(ikal::vevent! { class: Confidential, geo: a[1] }?)) },
    Call { kind: Kind::Event, label: "class last_modified", fields: &["class=CONFIDENTIAL", "last_modified"], f: |a| Ok(Any::Event(ikal::vevent! { class: Confidential, last_modified: a[1] }?)) },
    Call { kind: Kind::Event, label: "class location", fields: &["class=CONFIDENTIAL", "location"], f: |a| Ok(Any::Event(ikal::vevent! { class: Confidential, location: a[1] }?)) },
    Call { kind: Kind::Event, label: "class organizer", fields: &["class=CONFIDENTIAL", "organizer"], f: |a| Ok(Any::Event(ikal::vevent! { class: Confidential, organizer: a[1] }?)) },
    Call { kind: Kind::Event, label: "class priority", fields: &["class=CONFIDENTIAL", "priority"], f: |a| Ok(Any::Event(ikal::vevent! { class: Confidential, priority: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Event, label: "class sequence", fields: &["class=CONFIDENTIAL", "sequence"], f: |a| Ok(Any::Event(ikal::vevent! { class: Confidential, sequence: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Event, label: "class status", fields: &["class=CONFIDENTIAL", "status=IN-PROCESS"], f: |a| Ok(Any::Event(ikal::vevent! { class: Confidential, status: InProcess }?)) },
    Call { kind: Kind::Event, label: "class summary", fields: &["class=CONFIDENTIAL", "summary"], f: |a| Ok(Any::Event(ikal::vevent! { class: Confidential, summary: a[1] }?)) },
    Call { kind: Kind::Event, label: "class transp", fields: &["class=CONFIDENTIAL", "transp=TRANSPARENT"], f: |a| Ok(Any::Event(ikal::vevent! { class: Confidential, transp: Transparent }?)) },
    Call { kind: Kind::Event, label: "class url", fields: &["class=CONFIDENTIAL", "url"], f: |a| Ok(Any::Event(ikal::vevent! { class: Confidential, url: a[1] }?)) },
    Call { kind: Kind::Event, label: "class rrule", fields: &["class=CONFIDENTIAL", "rrule"], f: |a| Ok(Any::Event(ikal::vevent! { class: Confidential, rrule: a[1] }?)) },
    Call { kind: Kind::Event, label: "class dtend", fields: &["class=CONFIDENTIAL", "dtend"], f: |a| Ok(Any::Event(ikal::vevent! { class: Confidential, dtend: a[1] }?)) },
    Call { kind: Kind::Event, label: "class duration", fields: &["class=CONFIDENTIAL", "duration"], f: |a| Ok(Any::Event(ikal::vevent! { class: Confidential, duration: a[1] }?)) },
    Call { kind: Kind::Event, label: "class attach", fields: &["class=CONFIDENTIAL", "attach"], f: |a| Ok(Any::Event(ikal::vevent! { class: Confidential, attach: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "class attendee", fields: &["class=CONFIDENTIAL", "attendee"], f: |a| Ok(Any::Event(ikal::vevent! { class: Confidential, attendee: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "class categories", fields: &["class=CONFIDENTIAL", "categories"], f: |a| Ok(Any::Event(ikal::vevent! { class: Confidential, categories: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "class comment", fields: &["class=CONFIDENTIAL", "comment"], f: |a| Ok(Any::Event(ikal::vevent! { class: Confidential, comment: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "class contact", fields: &["class=CONFIDENTIAL", "contact"], f: |a| Ok(Any::Event(ikal::vevent! { class: Confidential, contact: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "class exdate", fields: &["class=CONFIDENTIAL", "exdate"], f: |a| Ok(Any::Event(ikal::vevent! { class: Confidential, exdate: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "class rstatus", fields: &["class=CONFIDENTIAL", "rstatus"], f: |a| Ok(Any::Event(ikal::vevent! { class: Confidential, rstatus: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "class related_to", fields: &["class=CONFIDENTIAL", "related_to"], f: |a| Ok(Any::Event(ikal::vevent! { class: Confidential, related_to: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "class resources", fields: &["class=CONFIDENTIAL", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { class: Confidential, resources: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "created description", fields: &["created", "description"], f: |a| Ok(Any::Event(ikal::vevent! { created: a[0], description: a[1] }?)) },
    Call { kind: Kind::Event, label: "created geo", fields: &["created", "geo"], f: |a| Ok(Any::Event(ikal::vevent! { created: a[0], geo: a[1] }?)) },
    Call { kind: Kind::Event, label: "created last_modified", fields: &["created", "last_modified"], f: |a| Ok(Any::Event(ikal::vevent! { created: a[0], last_modified: a[1] }?)) },
    Call { kind: Kind::Event, label: "created location", fields: &["created", "location"], f: |a| Ok(Any::Event(ikal::vevent! { created: a[0], location: a[1] }?)) },
    Call { kind: Kind::Event, label: "created organizer", fields: &["created", "organizer"], f: |a| Ok(Any::Event(ikal::vevent! { created: a[0], organizer: a[1] }?)) },
    Call { kind: Kind::Event, label: "created priority", fields: &["created", "priority"], f: |a| Ok(Any::Event(ikal::vevent! { created: a[0], priority: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Event, label: "created sequence", fields: &["created", "sequence"], f: |a| Ok(Any::Event(ikal::vevent! { created: a[0], sequence: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Event, label: "created status", fields: &["created", "status=IN-PROCESS"], f: |a| Ok(Any::Event(ikal::vevent! { created: a[0], status: InProcess }?)) },
    Call { kind: Kind::Event, label: "created summary", fields: &["created", "summary"], f: |a| Ok(Any::Event(ikal::vevent! { created: a[0], summary: a[1] }?)) },
    Call { kind: Kind::Event, label: "created transp", fields: &["created", "transp=TRANSPARENT"], f: |a| Ok(Any::Event(ikal::vevent! { created: a[0], transp: Transparent }?)) },
    Call { kind: Kind::Event, label: "created url", fields: &["created", "url"], f: |a| Ok(Any::Event(ikal::vevent! { created: a[0], url: a[1] }?)) },
    Call { kind: Kind::Event, label: "created rrule", fields: &["created", "rrule"], f: |a| Ok(Any::Event(ikal::vevent! { created: a[0], rrule: a[1] }?)) },
    Call { kind: Kind::Event, label: "created dtend", fields: &["created", "dtend"], f: |a| Ok(Any::Event(ikal::vevent! { created: a[0], dtend: a[1] }?)) },
    Call { kind: Kind::Event, label: "created duration", fields: &["created", "duration"], f: |a| Ok(Any::Event(ikal::vevent! { created: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Event, label: "created attach", fields: &["created", "attach"], f: |a| Ok(Any::Event(ikal::vevent! { created: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "created attendee", fields: &["created", "attendee"], f: |a| Ok(Any::Event(ikal::vevent! { created: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "created categories", fields: &["created", "categories"], f: |a| Ok(Any::Event(ikal::vevent! { created: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "created comment", fields: &["created", "comment"], f: |a| Ok(Any::Event(ikal::vevent! { created: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "created contact", fields: &["created", "contact"], f: |a| Ok(Any::Event(ikal::vevent! { created: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "created exdate", fields: &["created", "exdate"], f: |a| Ok(Any::Event(ikal::vevent! { created: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "created rstatus", fields: &["created", "rstatus"], f: |a| Ok(Any::Event(ikal::vevent! { created: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "created related_to", fields: &["created", "related_to"], f: |a| Ok(Any::Event(ikal::vevent! { created: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "created resources", fields: &["created", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { created: a[0], resources: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "description geo", fields: &["description", "geo"], f: |a| Ok(Any::Event(ikal::vevent! { description: a[0], geo: a[1] }?)) },
    Call { kind: Kind::Event, label: "description last_modified", fields: &["description", "last_modified"], f: |a| Ok(Any::Event(ikal::vevent! { description: a[0], last_modified: a[1] }?)) },
    Call { kind: Kind::Event, label: "description location", fields: &["description", "location"], f: |a| Ok(Any::Event(ikal::vevent! { description: a[0], location: a[1] }?)) },
    Call { kind: Kind::Event, label: "description organizer", fields: &["description", "organizer"], f: |a| Ok(Any::Event(ikal::vevent! { description: a[0], organizer: a[1] }?)) },
    Call { kind: Kind::Event, label: "description priority", fields: &["description", "priority"], f: |a| Ok(Any::Event(ikal::vevent! { description: a[0], priority: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Event, label: "description sequence", fields: &["description", "sequence"], f: |a| Ok(Any::Event(ikal::vevent! { description: a[0], sequence: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Event, label: "description status", fields: &["description", "status=IN-PROCESS"], f: |a| Ok(Any::Event(ikal::vevent! { description: a[0], status: InProcess }?)) },
    Call { kind: Kind::Event, label: "description summary", fields: &["description", "summary"], f: |a| Ok(Any::Event(ikal::vevent! { description: a[0], summary: a[1] }?)) },
    Call { kind: Kind::Event, label: "description transp", fields: &["description", "transp=TRANSPARENT"], f: |a| Ok(Any::Event(ikal::vevent! { description: a[0], transp: Transparent }?)) },
    Call { kind: Kind::Event, label: "description url", fields: &["description", "url"], f: |a| Ok(Any::Event(ikal::vevent! { description: a[0], url: a[1] }?)) },
    Call { kind: Kind::Event, label: "description rrule", fields: &["description", "rrule"], f: |a| Ok(Any::Event(ikal::vevent! { description: a[0], rrule: a[1] }?)) },
    Call { kind: Kind::Event, label: "description dtend", fields: &["description", "dtend"], f: |a| Ok(Any::Event(ikal::vevent! { description: a[0], dtend: a[1] }?)) },
    Call { kind: Kind::Event, label: "description duration", fields: &["description", "duration"], f: |a| Ok(Any::Event(ikal::vevent! { description: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Event, label: "description attach", fields: &["description", "attach"], f: |a| Ok(Any::Event(ikal::vevent! { description: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "description attendee", fields: &["description", "attendee"], f: |a| Ok(Any::Event(ikal::vevent! { description: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "description categories", fields: &["description", "categories"], f: |a| Ok(Any::Event(ikal::vevent! { description: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "description comment", fields: &["description", "comment"], f: |a| Ok(Any::Event(ikal::vevent! { description: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "description contact", fields: &["description", "contact"], f: |a| Ok(Any::Event(ikal::vevent! { description: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "description exdate", fields: &["description", "exdate"], f: |a| Ok(Any::Event(ikal::vevent! { description: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "description rstatus", fields: &["description", "rstatus"], f: |a| Ok(Any::Event(ikal::vevent! { description: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "description related_to", fields: &["description", "related_to"], f: |a| Ok(Any::Event(ikal::vevent! { description: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "description resources", fields: &["description", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { description: a[0], resources: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "geo last_modified", fields: &["geo", "last_modified"], f: |a| Ok(Any::Event(ikal::vevent! { geo: a[0], last_modified: a[1] }?)) },
    Call { kind: Kind::Event, label: "geo location", fields: &["geo", "location"], f: |a| Ok(Any::Event(ikal::vevent! { geo: a[0], location: a[1] }?)) },
    Call { kind: Kind::Event, label: "geo organizer", fields: &["geo", "organizer"], f: |a| Ok(Any::Event(ikal::vevent! { geo: a[0], organizer: a[1] }?)) },
    Call { kind: Kind::Event, label: "geo priority", fields: &["geo", "priority"], f: |a| Ok(Any::Event(ikal::vevent! { geo: a[0], priority: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Event, label: "geo sequence", fields: &["geo", "sequence"], f: |a| Ok(Any::Event(ikal::vevent! { geo: a[0], sequence: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Event, label: "geo status", fields: &["geo", "status=IN-PROCESS"], f: |a| Ok(Any::Event(ikal::vevent! { geo: a[0], status: InProcess }?)) },
    Call { kind: Kind::Event, label: "geo summary", fields: &["geo", "summary"], f: |a| Ok(Any::Event(ikal::vevent! { geo: a[0], summary: a[1] }?)) },
    Call { kind: Kind::Event, label: "geo transp", fields: &["geo", "transp=TRANSPARENT"], f: |a| Ok(Any::Event(ikal::vevent! { geo: a[0], transp: Transparent }?)) },
    Call { kind: Kind::Event, label: "geo url", fields: &["geo", "url"], f: |a| Ok(Any::Event(ikal::vevent! { geo: a[0], url: a[1] }?)) },
    Call { kind: Kind::Event, label: "geo rrule", fields: &["geo", "rrule"], f: |a| Ok(Any::Event(ikal::vevent! { geo: a[0], rrule: a[1] }?)) },
    Call { kind: Kind::Event, label: "geo dtend", fields: &["geo", "dtend"], f: |a| Ok(Any::Event(ikal::vevent! { geo: a[0], dtend: a[1] }?)) },
    Call { kind: Kind::Event, label: "geo duration", fields: &["geo", "duration"], f: |a| Ok(Any::Event(ikal::vevent! { geo: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Event, label: "geo attach", fields: &["geo", "attach"], f: |a| Ok(Any::Event(ikal::vevent! { geo: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "geo attendee", fields: &["geo", "attendee"], f: |a| Ok(Any::Event(ikal::vevent! { geo: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "geo categories", fields: &["geo", "categories"], f: |a| Ok(Any::Event(ikal::vevent! { geo: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "geo comment", fields: &["geo", "comment"], f: |a| Ok(Any::Event(ikal::vevent! { geo: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "geo contact", fields: &["geo", "contact"], f: |a| Ok(Any::Event(ikal::vevent! { geo: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "geo exdate", fields: &["geo", "exdate"], f: |a| Ok(Any::Event(ikal::vevent! { geo: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "geo rstatus", fields: &["geo", "rstatus"], f: |a| Ok(Any::Event(ikal::vevent! { geo: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "geo related_to", fields: &["geo", "related_to"], f: |a| Ok(Any::Event(ikal::vevent! { geo: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "geo resources", fields: &["geo", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { geo: a[0], resources: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "last_modified location", fields: &["last_modified", "location"], f: |a| Ok(Any::Event(ikal::vevent! { last_modified: a[0], location: a[1] }?)) },
    Call { kind: Kind::Event, label: "last_modified organizer", fields: &["last_modified", "organizer"], f: |a| Ok(Any::Event(ikal::vevent! { last_modified: a[0], organizer: a[1] }?)) },
    Call { kind: Kind::Event, label: "last_modified priority", fields: &["last_modified", "priority"], f: |a| Ok(Any::Event(ikal::vevent! { last_modified: a[0], priority: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Event, label: "last_modified sequence", fields: &["last_modified", "sequence"], f: |a| Ok(Any::Event(ikal::vevent! { last_modified: a[0], sequence: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Event, label: "last_modified status", fields: &["last_modified", "status=IN-PROCESS"], f: |a| Ok(Any::Event(ikal::vevent! { last_modified: a[0], status: InProcess }?)) },
    Call { kind: Kind::Event, label: "last_modified summary", fields: &["last_modified", "summary"], f: |a| Ok(Any::Event(ikal::vevent! { last_modified: a[0], summary: a[1] }?)) },
    Call { kind: Kind::Event, label: "last_modified transp", fields: &["last_modified", "transp=TRANSPARENT"], f: |a| Ok(Any::Event(ikal::vevent! { last_modified: a[0], transp: Transparent }?)) },
    Call { kind: Kind::Event, label: "last_modified url", fields: &["last_modified", "url"], f: |a| Ok(Any::Event(ikal::vevent! { last_modified: a[0], url: a[1] }?)) },
    Call { kind: Kind::Event, label: "last_modified rrule", fields: &["last_modified", "rrule"], f: |a| Ok(Any::Event(ikal::vevent! { last_modified: a[0], rrule: a[1] }?)) },
    Call { kind: Kind::Event, label: "last_modified dtend", fields: &["last_modified", "dtend"], f: |a| Ok(Any::Event(ikal::vevent! { last_modified: a[0], dtend: a[1] }?)) },
    Call { kind: Kind::Event, label: "last_modified duration", fields: &["last_modified", "duration"], f: |a| Ok(Any::Event(ikal::vevent! { last_modified: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Event, label: "last_modified attach", fields: &["last_modified", "attach"], f: |a| Ok(Any::Event(ikal::vevent! { last_modified: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "last_modified attendee", fields: &["last_modified", "attendee"], f: |a| Ok(Any::Event(ikal::vevent! { last_modified: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "last_modified categories", fields: &["last_modified", "categories"], f: |a| Ok(Any::Event(ikal::vevent! { last_modified: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "last_modified comment", fields: &["last_modified", "comment"], f: |a| Ok(Any::Event(ikal::vevent! { last_modified: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "last_modified contact", fields: &["last_modified", "contact"], f: |a| Ok(Any::Event(ikal::vevent! { last_modified: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "last_modified exdate", fields: &["last_modified", "exdate"], f: |a| Ok(Any::Event(ikal::vevent! { last_modified: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "last_modified rstatus", fields: &["last_modified", "rstatus"], f: |a| Ok(Any::Event(ikal::vevent! { last_modified: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "last_modified related_to", fields: &["last_modified", "related_to"], f: |a| Ok(Any::Event(ikal::vevent! { last_modified: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "last_modified resources", fields: &["last_modified", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { last_modified: a[0], resources: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "location organizer", fields: &["location", "organizer"], f: |a| Ok(Any::Event(ikal::vevent! { location: a[0], organizer: a[1] }?)) },
    Call { kind: Kind::Event, label: "location priority", fields: &["location", "priority"], f: |a| Ok(Any::Event(ikal::vevent! { location: a[0], priority: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Event, label: "location sequence", fields: &["location", "sequence"], f: |a| Ok(Any::Event(ikal::vevent! { location: a[0], sequence: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Event, label: "location status", fields: &["location", "status=IN-PROCESS"], f: |a| Ok(Any::Event(ikal::vevent! { location: a[0], status: InProcess }?)) },
    Call { kind: Kind::Event, label: "location summary", fields: &["location", "summary"], f: |a| Ok(Any::Event(ikal::vevent! { location: a[0], summary: a[1] }?)) },
    Call { kind: Kind::Event, label: "location transp", fields: &["location", "transp=TRANSPARENT"], f: |a| Ok(Any::Event(ikal::vevent! { location: a[0], transp: Transparent }?)) },
    Call { kind: Kind::Event, label: "location url", fields: &["location", "url"], f: |a| Ok(Any::Event(ikal::vevent! { location: a[0], url: a[1] }?)) },
    Call { kind: Kind::Event, label: "location rrule", fields: &["location", "rrule"], f: |a| Ok(Any::Event(ikal::vevent! { location: a[0], rrule: a[1] }?)) },
    Call { kind: Kind::Event, label: "location dtend", fields: &["location", "dtend"], f: |a| Ok(Any::Event(ikal::vevent! { location: a[0], dtend: a[1] }?)) },
    Call { kind: Kind::Event, label: "location duration", fields: &["location", "duration"], f: |a| Ok(Any::Event(ikal::vevent! { location: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Event, label: "location attach", fields: &["location", "attach"], f: |a| Ok(Any::Event(ikal::vevent! { location: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "location attendee", fields: &["location", "attendee"], f: |a| Ok(Any::Event(ikal::vevent! { location: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "location categories", fields: &["location", "categories"], f: |a| Ok(Any::Event(ikal::vevent! { location: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "location comment", fields: &["location", "comment"], f: |a| Ok(Any::Event(ikal::vevent! { location: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "location contact", fields: &["location", "contact"], f: |a| Ok(Any::Event(ikal::vevent! { location: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "location exdate", fields: &["location", "exdate"], f: |a| Ok(Any::Event(ikal::vevent! { location: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "location rstatus", fields: &["location", "rstatus"], f: |a| Ok(Any::Event(ikal::vevent! { location: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "location related_to", fields: &["location", "related_to"], f: |a| Ok(Any::Event(ikal::vevent! { location: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "location resources", fields: &["location", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { location: a[0], resources: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "organizer priority", fields: &["organizer", "priority"], f: |a| Ok(Any::Event(ikal::vevent! { organizer: a[0], priority: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Event, label: "organizer sequence", fields: &["organizer", "sequence"], f: |a| Ok(Any::Event(ikal::vevent! { organizer: a[0], sequence: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Event, label: "organizer status", fields: &["organizer", "status=IN-PROCESS"], f: |a| Ok(Any::Event(ikal::vevent! { organizer: a[0], status: InProcess }?)) },
    Call { kind: Kind::Event, label: "organizer summary", fields: &["organizer", "summary"], f: |a| Ok(Any::Event(ikal::vevent! { organizer: a[0], summary: a[1] }?)) },
    Call { kind: Kind::Event, label: "organizer transp", fields: &["organizer", "transp=TRANSPARENT"], f: |a| Ok(Any::Event(ikal::vevent! { organizer: a[0], transp: Transparent }?)) },
    Call { kind: Kind::Event, label: "organizer url", fields: &["organizer", "url"], f: |a| Ok(Any::Event(ikal::vevent! { organizer: a[0], url: a[1] }?)) },
    Call { kind: Kind::Event, label: "organizer rrule", fields: &["organizer", "rrule"], f: |a| Ok(Any::Event(ikal::vevent! { organizer: a[0], rrule: a[1] }?)) },
    Call { kind: Kind::Event, label: "organizer dtend", fields: &["organizer", "dtend"], f: |a| Ok(Any::Event(ikal::vevent! { organizer: a[0], dtend: a[1] }?)) },
    Call { kind: Kind::Event, label: "organizer duration", fields: &["organizer", "duration"], f: |a| Ok(Any::Event(ikal::vevent! { organizer: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Event, label: "organizer attach", fields: &["organizer", "attach"], f: |a| Ok(Any::Event(ikal::vevent! { organizer: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "organizer attendee", fields: &["organizer", "attendee"], f: |a| Ok(Any::Event(ikal::vevent! { organizer: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "organizer categories", fields: &["organizer", "categories"], f: |a| Ok(Any::Event(ikal::vevent! { organizer: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "organizer comment", fields: &["organizer", "comment"], f: |a| Ok(Any::Event(ikal::vevent! { organizer: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "organizer contact", fields: &["organizer", "contact"], f: |a| Ok(Any::Event(ikal::vevent! { organizer: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "organizer exdate", fields: &["organizer", "exdate"], f: |a| Ok(Any::Event(ikal::vevent! { organizer: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "organizer rstatus", fields: &["organizer", "rstatus"], f: |a| Ok(Any::Event(ikal::vevent! { organizer: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "organizer related_to", fields: &["organizer", "related_to"], f: |a| Ok(Any::Event(ikal::vevent! { organizer: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "organizer resources", fields: &["organizer", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { organizer: a[0], resources: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "priority sequence", fields: &["priority", "sequence"], f: |a| Ok(Any::Event(ikal::vevent! { priority: num::<u8>(a[0]), sequence: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Event, label: "priority status", fields: &["priority", "status=IN-PROCESS"], f: |a| Ok(Any::Event(ikal::vevent! { priority: num::<u8>(a[0]), status: InProcess }?)) },
    Call { kind: Kind::Event, label: "priority summary", fields: &["priority", "summary"], f: |a| Ok(Any::Event(ikal::vevent! { priority: num::<u8>(a[0]), summary: a[1] }?)) },
    Call { kind: Kind::Event, label: "priority transp", fields: &["priority", "transp=TRANSPARENT"], f: |a| Ok(Any::Event(ikal::vevent! { priority: num::<u8>(a[0]), transp: Transparent }?)) },
    Call { kind: Kind::Event, label: "priority url", fields: &["priority", "url"], f: |a| Ok(Any::Event(ikal::vevent! { priority: num::<u8>(a[0]), url: a[1] }?)) },
    Call { kind: Kind::Event, label: "priority rrule", fields: &["priority", "rrule"], f: |a| Ok(Any::Event(ikal::vevent! { priority: num::<u8>(a[0]), rrule: a[1] }?)) },
    Call { kind: Kind::Event, label: "priority dtend", fields: &["priority", "dtend"], f: |a| Ok(Any::Event(ikal::vevent! { priority: num::<u8>(a[0]), dtend: a[1] }?)) },
    Call { kind: Kind::Event, label: "priority duration", fields: &["priority", "duration"], f: |a| Ok(Any::Event(ikal::vevent! { priority: num::<u8>(a[0]), duration: a[1] }?)) },
    Call { kind: Kind::Event, label: "priority attach", fields: &["priority", "attach"], f: |a| Ok(Any::Event(ikal::vevent! { priority: num::<u8>(a[0]), attach: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "priority attendee", fields: &["priority", "attendee"], f: |a| Ok(Any::Event(ikal::vevent! { priority: num::<u8>(a[0]), attendee: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "priority categories", fields: &["priority", "categories"], f: |a| Ok(Any::Event(ikal::vevent! { priority: num::<u8>(a[0]), categories: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "priority comment", fields: &["priority", "comment"], f: |a| Ok(Any::Event(ikal::vevent! { priority: num::<u8>(a[0]), comment: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "priority contact", fields: &["priority", "contact"], f: |a| Ok(Any::Event(ikal::vevent! { priority: num::<u8>(a[0]), contact: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "priority exdate", fields: &["priority", "exdate"], f: |a| Ok(Any::Event(ikal::vevent! { priority: num::<u8>(a[0]), exdate: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "priority rstatus", fields: &["priority", "rstatus"], f: |a| Ok(Any::Event(ikal::vevent! { priority: num::<u8>(a[0]), rstatus: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "priority related_to", fields: &["priority", "related_to"], f: |a| Ok(Any::Event(ikal::vevent! { priority: num::<u8>(a[0]), related_to: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "priority resources", fields: &["priority", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { priority: num::<u8>(a[0]), resources: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "sequence status", fields: &["sequence", "status=IN-PROCESS"], f: |a| Ok(Any::Event(ikal::vevent! { sequence: num::<u32>(a[0]), status: InProcess }?)) },
    Call { kind: Kind::Event, label: "sequence summary", fields: &["sequence", "summary"], f: |a| Ok(Any::Event(ikal::vevent! { sequence: num::<u32>(a[0]), summary: a[1] }?)) },
    Call { kind: Kind::Event, label: "sequence transp", fields: &["sequence", "transp=TRANSPARENT"], f: |a| Ok(Any::Event(ikal::vevent! { sequence: num::<u32>(a[0]), transp: Transparent }?)) },
    Call { kind: Kind::Event, label: "sequence url", fields: &["sequence", "url"], f: |a| Ok(Any::Event(ikal::vevent! { sequence: num::<u32>(a[0]), url: a[1] }?)) },
    Call { kind: Kind::Event, label: "sequence rrule", fields: &["sequence", "rrule"], f: |a| Ok(Any::Event(ikal::vevent! { sequence: num::<u32>(a[0]), rrule: a[1] }?)) },
    Call { kind: Kind::Event, label: "sequence dtend", fields: &["sequence", "dtend"], f: |a| Ok(Any::Event(ikal::vevent! { sequence: num::<u32>(a[0]), dtend: a[1] }?)) },
    Call { kind: Kind::Event, label: "sequence duration", fields: &["sequence", "duration"], f: |a| Ok(Any::Event(ikal::vevent! { sequence: num::<u32>(a[0]), duration: a[1] }?)) },
    Call { kind: Kind::Event, label: "sequence attach", fields: &["sequence", "attach"], f: |a| Ok(Any::Event(ikal::vevent! { sequence: num::<u32>(a[0]), attach: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "sequence attendee", fields: &["sequence", "attendee"], f: |a| Ok(Any::Event(ikal::vevent! { sequence: num::<u32>(a[0]), attendee: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "sequence categories", fields: &["sequence", "categories"], f: |a| Ok(Any::Event(ikal::vevent! { sequence: num::<u32>(a[0]), categories: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "sequence comment", fields: &["sequence", "comment"], f: |a| Ok(Any::Event(ikal::vevent! { sequence: num::<u32>(a[0]), comment: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "sequence contact", fields: &["sequence", "contact"], f: |a| Ok(Any::Event(ikal::vevent! { sequence: num::<u32>(a[0]), contact: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "sequence exdate", fields: &["sequence", "exdate"], f: |a| Ok(Any::Event(ikal::vevent! { sequence: num::<u32>(a[0]), exdate: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "sequence rstatus", fields: &["sequence", "rstatus"], f: |a| Ok(Any::Event(ikal::vevent! { sequence: num::<u32>(a[0]), rstatus: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "sequence related_to", fields: &["sequence", "related_to"], f: |a| Ok(Any::Event(ikal::vevent! { sequence: num::<u32>(a[0]), related_to: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "sequence resources", fields: &["sequence", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { sequence: num::<u32>(a[0]), resources: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "status summary", fields: &["status=IN-PROCESS", "summary"], f: |a| Ok(Any::Event(ikal::vevent! { status: InProcess, summary: a[1] }?)) },
    Call { kind: Kind::Event, label: "status transp", fields: &["status=IN-PROCESS", "transp=TRANSPARENT"], f: |a| Ok(Any::Event(ikal::vevent! { status: InProcess, transp: Transparent }?)) },
    Call { kind: Kind::Event, label: "status url", fields: &["status=IN-PROCESS", "url"], f: |a| Ok(Any::Event(ikal::vevent! { status: InProcess, url: a[1] }?)) },
    Call { kind: Kind::Event, label: "status rrule", fields: &["status=IN-PROCESS", "rrule"], f: |a| Ok(Any::Event(ikal::vevent! { status: InProcess, rrule: a[1] }?)) },
    Call { kind: Kind::Event, label: "status dtend", fields: &["status=IN-PROCESS", "dtend"], f: |a| Ok(Any::Event(ikal::vevent! { status: InProcess, dtend: a[1] }?)) },
    Call { kind: Kind::Event, label: "status duration", fields: &["status=IN-PROCESS", "duration"], f: |a| Ok(Any::Event(ikal::vevent! { status: InProcess, duration: a[1] }?)) },
    Call { kind: Kind::Event, label: "status attach", fields: &["status=IN-PROCESS", "attach"], f: |a| Ok(Any::Event(ikal::vevent! { status: InProcess, attach: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "status attendee", fields: &["status=IN-PROCESS", "attendee"], f: |a| Ok(Any::Event(ikal::vevent! { status: InProcess, attendee: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "status categories", fields: &["status=IN-PROCESS", "categories"], f: |a| Ok(Any::Event(ikal::vevent! { status: InProcess, categories: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "status comment", fields: &["status=IN-PROCESS", "comment"], f: |a| Ok(Any::Event(ikal::vevent! { status: InProcess, comment: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "status contact", fields: &["status=IN-PROCESS", "contact"], f: |a| Ok(Any::Event(ikal::vevent! { status: InProcess, contact: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "status exdate", fields: &["status=IN-PROCESS", "exdate"], f: |a| Ok(Any::Event(ikal::vevent! { status: InProcess, exdate: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "status rstatus", fields: &["status=IN-PROCESS", "rstatus"], f: |a| Ok(Any::Event(ikal::vevent! { status: InProcess, rstatus: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "status related_to", fields: &["status=IN-PROCESS", "related_to"], f: |a| Ok(Any::Event(ikal::vevent! { status: InProcess, related_to: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "status resources", fields: &["status=IN-PROCESS", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { status: InProcess, resources: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "summary transp", fields: &["summary", "transp=TRANSPARENT"], f: |a| Ok(Any::Event(ikal::vevent! { summary: a[0], transp: Transparent }?)) },
    Call { kind: Kind::Event, label: "summary url", fields: &["summary", "url"], f: |a| Ok(Any::Event(ikal::vevent! { summary: a[0], url: a[1] }?)) },
    Call { kind: Kind::Event, label: "summary rrule", fields: &["summary", "rrule"], f: |a| Ok(Any::Event(ikal::vevent! { summary: a[0], rrule: a[1] }?)) },
    Call { kind: Kind::Event, label: "summary dtend", fields: &["summary", "dtend"], f: |a| Ok(Any::Event(ikal::vevent! { summary: a[0], dtend: a[1] }?)) },
    Call { kind: Kind::Event, label: "summary duration", fields: &["summary", "duration"], f: |a| Ok(Any::Event(ikal::vevent! { summary: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Event, label: "summary attach", fields: &["summary", "attach"], f: |a| Ok(Any::Event(ikal::vevent! { summary: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "summary attendee", fields: &["summary", "attendee"], f: |a| Ok(Any::Event(ikal::vevent! { summary: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "summary categories", fields: &["summary", "categories"], f: |a| Ok(Any::Event(ikal::vevent! { summary: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "summary comment", fields: &["summary", "comment"], f: |a| Ok(Any::Event(ikal::vevent! { summary: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "summary contact", fields: &["summary", "contact"], f: |a| Ok(Any::Event(ikal::vevent! { summary: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "summary exdate", fields: &["summary", "exdate"], f: |a| Ok(Any::Event(ikal::vevent! { summary: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "summary rstatus", fields: &["summary", "rstatus"], f: |a| Ok(Any::Event(ikal::vevent! { summary: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "summary related_to", fields: &["summary", "related_to"], f: |a| Ok(Any::Event(ikal::vevent! { summary: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "summary resources", fields: &["summary", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { summary: a[0], resources: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "transp url", fields: &["transp=TRANSPARENT", "url"], f: |a| Ok(Any::Event(ikal::vevent! { transp: Transparent, url: a[1] }?)) },
    Call { kind: Kind::Event, label: "transp rrule", fields: &["transp=TRANSPARENT", "rrule"], f: |a| Ok(Any::Event(ikal::vevent! { transp: Transparent, rrule: a[1] }?)) },
    Call { kind: Kind::Event, label: "transp dtend", fields: &["transp=TRANSPARENT", "dtend"], f: |a| Ok(Any::Event(ikal::vevent! { transp: Transparent, dtend: a[1] }?)) },
    Call { kind: Kind::Event, label: "transp duration", fields: &["transp=TRANSPARENT", "duration"], f: |a| Ok(Any::Event(ikal::vevent! { transp: Transparent, duration: a[1] }?)) },
    Call { kind: Kind::Event, label: "transp attach", fields: &["transp=TRANSPARENT", "attach"], f: |a| Ok(Any::Event(ikal::vevent! { transp: Transparent, attach: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "transp attendee", fields: &["transp=TRANSPARENT", "attendee"], f: |a| Ok(Any::Event(ikal::vevent! { transp: Transparent, attendee: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "transp categories", fields: &["transp=TRANSPARENT", "categories"], f: |a| Ok(Any::Event(ikal::vevent! { transp: Transparent, categories: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "transp comment", fields: &["transp=TRANSPARENT", "comment"], f: |a| Ok(Any::Event(ikal::vevent! { transp: Transparent, comment: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "transp contact", fields: &["transp=TRANSPARENT", "contact"], f: |a| Ok(Any::Event(ikal::vevent! { transp: Transparent, contact: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "transp exdate", fields: &["transp=TRANSPARENT", "exdate"], f: |a| Ok(Any::Event(ikal::vevent! { transp: Transparent, exdate: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "transp rstatus", fields: &["transp=TRANSPARENT", "rstatus"], f: |a| Ok(Any::Event(ikal::vevent! { transp: Transparent, rstatus: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "transp related_to", fields: &["transp=TRANSPARENT", "related_to"], f: |a| Ok(Any::Event(ikal::vevent! { transp: Transparent, related_to: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "transp resources", fields: &["transp=TRANSPARENT", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { transp: Transparent, resources: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "url rrule", fields: &["url", "rrule"], f: |a| Ok(Any::Event(ikal::vevent! { url: a[0], rrule: a[1] }?)) },
    Call { kind: Kind::Event, label: "url dtend", fields: &["url", "dtend"], f: |a| Ok(Any::Event(ikal::vevent! { url: a[0], dtend: a[1] }?)) },
    Call { kind: Kind::Event, label: "url duration", fields: &["url", "duration"], f: |a| Ok(Any::Event(ikal::vevent! { url: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Event, label: "url attach", fields: &["url", "attach"], f: |a| Ok(Any::Event(ikal::vevent! { url: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "url attendee", fields: &["url", "attendee"], f: |a| Ok(Any::Event(ikal::vevent! { url: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "url categories", fields: &["url", "categories"], f: |a| Ok(Any::Event(ikal::vevent! { url: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "url comment", fields: &["url", "comment"], f: |a| Ok(Any::Event(ikal::vevent! { url: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "url contact", fields: &["url", "contact"], f: |a| Ok(Any::Event(ikal::vevent! { url: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "url exdate", fields: &["url", "exdate"], f: |a| Ok(Any::Event(ikal::vevent! { url: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "url rstatus", fields: &["url", "rstatus"], f: |a| Ok(Any::Event(ikal::vevent! { url: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "url related_to", fields: &["url", "related_to"], f: |a| Ok(Any::Event(ikal::vevent! { url: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "url resources", fields: &["url", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { url: a[0], resources: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "rrule dtend", fields: &["rrule", "dtend"], f: |a| Ok(Any::Event(ikal::vevent! { rrule: a[0], dtend: a[1] }?)) },
    Call { kind: Kind::Event, label: "rrule duration", fields: &["rrule", "duration"], f: |a| Ok(Any::Event(ikal::vevent! { rrule: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Event, label: "rrule attach", fields: &["rrule", "attach"], f: |a| Ok(Any::Event(ikal::vevent! { rrule: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "rrule attendee", fields: &["rrule", "attendee"], f: |a| Ok(Any::Event(ikal::vevent! { rrule: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "rrule categories", fields: &["rrule", "categories"], f: |a| Ok(Any::Event(ikal::vevent! { rrule: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "rrule comment", fields: &["rrule", "comment"], f: |a| Ok(Any::Event(ikal::vevent! { rrule: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "rrule contact", fields: &["rrule", "contact"], f: |a| Ok(Any::Event(ikal::vevent! { rrule: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "rrule exdate", fields: &["rrule", "exdate"], f: |a| Ok(Any::Event(ikal::vevent! { rrule: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "rrule rstatus", fields: &["rrule", "rstatus"], f: |a| Ok(Any::Event(ikal::vevent! { rrule: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "rrule related_to", fields: &["rrule", "related_to"], f: |a| Ok(Any::Event(ikal::vevent! { rrule: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "rrule resources", fields: &["rrule", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { rrule: a[0], resources: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "dtend duration", fields: &["dtend", "duration"], f: |a| Ok(Any::Event(ikal::vevent! { dtend: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Event, label: "dtend attach", fields: &["dtend", "attach"], f: |a| Ok(Any::Event(ikal::vevent! { dtend: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "dtend attendee", fields: &["dtend", "attendee"], f: |a| Ok(Any::Event(ikal::vevent! { dtend: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "dtend categories", fields: &["dtend", "categories"], f: |a| Ok(Any::Event(ikal::vevent! { dtend: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "dtend comment", fields: &["dtend", "comment"], f: |a| Ok(Any::Event(ikal::vevent! { dtend: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "dtend contact", fields: &["dtend", "contact"], f: |a| Ok(Any::Event(ikal::vevent! { dtend: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "dtend exdate", fields: &["dtend", "exdate"], f: |a| Ok(Any::Event(ikal::vevent! { dtend: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "dtend rstatus", fields: &["dtend", "rstatus"], f: |a| Ok(Any::Event(ikal::vevent! { dtend: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "dtend related_to", fields: &["dtend", "related_to"], f: |a| Ok(Any::Event(ikal::vevent! { dtend: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "dtend resources", fields: &["dtend", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtend: a[0], resources: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "duration attach", fields: &["duration", "attach"], f: |a| Ok(Any::Event(ikal::vevent! { duration: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "duration attendee", fields: &["duration", "attendee"], f: |a| Ok(Any::Event(ikal::vevent! { duration: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "duration categories", fields: &["duration", "categories"], f: |a| Ok(Any::Event(ikal::vevent! { duration: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "duration comment", fields: &["duration", "comment"], f: |a| Ok(Any::Event(ikal::vevent! { duration: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "duration contact", fields: &["duration", "contact"], f: |a| Ok(Any::Event(ikal::vevent! { duration: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "duration exdate", fields: &["duration", "exdate"], f: |a| Ok(Any::Event(ikal::vevent! { duration: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "duration rstatus", fields: &["duration", "rstatus"], f: |a| Ok(Any::Event(ikal::vevent! { duration: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "duration related_to", fields: &["duration", "related_to"], f: |a| Ok(Any::Event(ikal::vevent! { duration: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "duration resources", fields: &["duration", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { duration: a[0], resources: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "attach attendee", fields: &["attach", "attendee"], f: |a| Ok(Any::Event(ikal::vevent! { attach: [a[0]], attendee: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "attach categories", fields: &["attach", "categories"], f: |a| Ok(Any::Event(ikal::vevent! { attach: [a[0]], categories: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "attach comment", fields: &["attach", "comment"], f: |a| Ok(Any::Event(ikal::vevent! { attach: [a[0]], comment: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "attach contact", fields: &["attach", "contact"], f: |a| Ok(Any::Event(ikal::vevent! { attach: [a[0]], contact: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "attach exdate", fields: &["attach", "exdate"], f: |a| Ok(Any::Event(ikal::vevent! { attach: [a[0]], exdate: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "attach rstatus", fields: &["attach", "rstatus"], f: |a| Ok(Any::Event(ikal::vevent! { attach: [a[0]], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "attach related_to", fields: &["attach", "related_to"], f: |a| Ok(Any::Event(ikal::vevent! { attach: [a[0]], related_to: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "attach resources", fields: &["attach", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { attach: [a[0]], resources: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "attendee categories", fields: &["attendee", "categories"], f: |a| Ok(Any::Event(ikal::vevent! { attendee: [a[0]], categories: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "attendee comment", fields: &["attendee", "comment"], f: |a| Ok(Any::Event(ikal::vevent! { attendee: [a[0]], comment: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "attendee contact", fields: &["attendee", "contact"], f: |a| Ok(Any::Event(ikal::vevent! { attendee: [a[0]], contact: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "attendee exdate", fields: &["attendee", "exdate"], f: |a| Ok(Any::Event(ikal::vevent! { attendee: [a[0]], exdate: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "attendee rstatus", fields: &["attendee", "rstatus"], f: |a| Ok(Any::Event(ikal::vevent! { attendee: [a[0]], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "attendee related_to", fields: &["attendee", "related_to"], f: |a| Ok(Any::Event(ikal::vevent! { attendee: [a[0]], related_to: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "attendee resources", fields: &["attendee", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { attendee: [a[0]], resources: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "categories comment", fields: &["categories", "comment"], f: |a| Ok(Any::Event(ikal::vevent! { categories: [a[0]], comment: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "categories contact", fields: &["categories", "contact"], f: |a| Ok(Any::Event(ikal::vevent! { categories: [a[0]], contact: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "categories exdate", fields: &["categories", "exdate"], f: |a| Ok(Any::Event(ikal::vevent! { categories: [a[0]], exdate: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "categories rstatus", fields: &["categories", "rstatus"], f: |a| Ok(Any::Event(ikal::vevent! { categories: [a[0]], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "categories related_to", fields: &["categories", "related_to"], f: |a| Ok(Any::Event(ikal::vevent! { categories: [a[0]], related_to: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "categories resources", fields: &["categories", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { categories: [a[0]], resources: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "comment contact", fields: &["comment", "contact"], f: |a| Ok(Any::Event(ikal::vevent! { comment: [a[0]], contact: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "comment exdate", fields: &["comment", "exdate"], f: |a| Ok(Any::Event(ikal::vevent! { comment: [a[0]], exdate: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "comment rstatus", fields: &["comment", "rstatus"], f: |a| Ok(Any::Event(ikal::vevent! { comment: [a[0]], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "comment related_to", fields: &["comment", "related_to"], f: |a| Ok(Any::Event(ikal::vevent! { comment: [a[0]], related_to: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "comment resources", fields: &["comment", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { comment: [a[0]], resources: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "contact exdate", fields: &["contact", "exdate"], f: |a| Ok(Any::Event(ikal::vevent! { contact: [a[0]], exdate: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "contact rstatus", fields: &["contact", "rstatus"], f: |a| Ok(Any::Event(ikal::vevent! { contact: [a[0]], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "contact related_to", fields: &["contact", "related_to"], f: |a| Ok(Any::Event(ikal::vevent! { contact: [a[0]], related_to: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "contact resources", fields: &["contact", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { contact: [a[0]], resources: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "exdate rstatus", fields: &["exdate", "rstatus"], f: |a| Ok(Any::Event(ikal::vevent! { exdate: [a[0]], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "exdate related_to", fields: &["exdate", "related_to"], f: |a| Ok(Any::Event(ikal::vevent! { exdate: [a[0]], related_to: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "exdate resources", fields: &["exdate", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { exdate: [a[0]], resources: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "rstatus related_to", fields: &["rstatus", "related_to"], f: |a| Ok(Any::Event(ikal::vevent! { rstatus: [a[0]], related_to: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "rstatus resources", fields: &["rstatus", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { rstatus: [a[0]], resources: [a[1]] }?)) },
    Call { kind: Kind::Event, label: "related_to resources", fields: &["related_to", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { related_to: [a[0]], resources: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "dtstamp uid", fields: &["dtstamp", "uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1] }?)) },
    Call { kind: Kind::Todo, label: "dtstamp class", fields: &["dtstamp", "class=CONFIDENTIAL"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], class: Confidential }?)) },
    Call { kind: Kind::Todo, label: "dtstamp completed", fields: &["dtstamp", "completed"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], completed: a[1] }?)) },
    Call { kind: Kind::Todo, label: "dtstamp created", fields: &["dtstamp", "created"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], created: a[1] }?)) },
    Call { kind: Kind::Todo, label: "dtstamp dtstart", fields: &["dtstamp", "dtstart"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], dtstart: a[1] }?)) },
    Call { kind: Kind::Todo, label: "dtstamp geo", fields: &["dtstamp", "geo"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], geo: a[1] }?)) },
    Call { kind: Kind::Todo, label: "dtstamp last_modified", fields: &["dtstamp", "last_modified"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], last_modified: a[1] }?)) },
    Call { kind: Kind::Todo, label: "dtstamp location", fields: &["dtstamp", "location"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], location: a[1] }?)) },
    Call { kind: Kind::Todo, label: "dtstamp organizer", fields: &["dtstamp", "organizer"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], organizer: a[1] }?)) },
    Call { kind: Kind::Todo, label: "dtstamp percent_complete", fields: &["dtstamp", "percent_complete"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], percent_complete: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "dtstamp priority", fields: &["dtstamp", "priority"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], priority: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "dtstamp sequence", fields: &["dtstamp", "sequence"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], sequence: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "dtstamp status", fields: &["dtstamp", "status=IN-PROCESS"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], status: InProcess }?)) },
    Call { kind: Kind::Todo, label: "dtstamp summary", fields: &["dtstamp", "summary"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], summary: a[1] }?)) },
    Call { kind: Kind::Todo, label: "dtstamp url", fields: &["dtstamp", "url"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], url: a[1] }?)) },
    Call { kind: Kind::Todo, label: "dtstamp rrule", fields: &["dtstamp", "rrule"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], rrule: a[1] }?)) },
    Call { kind: Kind::Todo, label: "dtstamp due", fields: &["dtstamp", "due"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], due: a[1] }?)) },
    Call { kind: Kind::Todo, label: "dtstamp duration", fields: &["dtstamp", "duration"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Todo, label: "dtstamp attach", fields: &["dtstamp", "attach"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "dtstamp attendee", fields: &["dtstamp", "attendee"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "dtstamp categories", fields: &["dtstamp", "categories"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "dtstamp comment", fields: &["dtstamp", "comment"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "dtstamp contact", fields: &["dtstamp", "contact"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "dtstamp exdate", fields: &["dtstamp", "exdate"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "dtstamp rstatus", fields: &["dtstamp", "rstatus"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "dtstamp related_to", fields: &["dtstamp", "related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "dtstamp resources", fields: &["dtstamp", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], resources: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "uid class", fields: &["uid", "class=CONFIDENTIAL"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: a[0], class: Confidential }?)) },
    Call { kind: Kind::Todo, label: "uid completed", fields: &["uid", "completed"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: a[0], completed: a[1] }?)) },
    Call { kind: Kind::Todo, label: "uid created", fields: &["uid", "created"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: a[0], created: a[1] }?)) },
    Call { kind: Kind::Todo, label: "uid dtstart", fields: &["uid", "dtstart"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: a[0], dtstart: a[1] }?)) },
    Call { kind: Kind::Todo, label: "uid geo", fields: &["uid", "geo"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: a[0], geo: a[1] }?)) },
    Call { kind: Kind::Todo, label: "uid last_modified", fields: &["uid", "last_modified"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: a[0], last_modified: a[1] }?)) },
    Call { kind: Kind::Todo, label: "uid location", fields: &["uid", "location"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: a[0], location: a[1] }?)) },
    Call { kind: Kind::Todo, label: "uid organizer", fields: &["uid", "organizer"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: a[0], organizer: a[1] }?)) },
    Call { kind: Kind::Todo, label: "uid percent_complete", fields: &["uid", "percent_complete"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: a[0], percent_complete: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "uid priority", fields: &["uid", "priority"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: a[0], priority: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "uid sequence", fields: &["uid", "sequence"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: a[0], sequence: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "uid status", fields: &["uid", "status=IN-PROCESS"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: a[0], status: InProcess }?)) },
    Call { kind: Kind::Todo, label: "uid summary", fields: &["uid", "summary"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: a[0], summary: a[1] }?)) },
    Call { kind: Kind::Todo, label: "uid url", fields: &["uid", "url"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: a[0], url: a[1] }?)) },
    Call { kind: Kind::Todo, label: "uid rrule", fields: &["uid", "rrule"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: a[0], rrule: a[1] }?)) },
    Call { kind: Kind::Todo, label: "uid due", fields: &["uid", "due"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: a[0], due: a[1] }?)) },
    Call { kind: Kind::Todo, label: "uid duration", fields: &["uid", "duration"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Todo, label: "uid attach", fields: &["uid", "attach"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "uid attendee", fields: &["uid", "attendee"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "uid categories", fields: &["uid", "categories"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "uid comment", fields: &["uid", "comment"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "uid contact", fields: &["uid", "contact"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "uid exdate", fields: &["uid", "exdate"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "uid rstatus", fields: &["uid", "rstatus"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "uid related_to", fields: &["uid", "related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "uid resources", fields: &["uid", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: a[0], resources: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "class completed", fields: &["class=CONFIDENTIAL", "completed"], f: |a| Ok(Any::Todo(ikal::vtodo! { class: Confidential, completed: a[1] }?)) },
    Call { kind: Kind::Todo, label: "class created", fields: &["class=CONFIDENTIAL", "created"], f: |a| Ok(Any::Todo(ikal::vtodo! { class: Confidential, created: a[1] }?)) },
    Call { kind: Kind::Todo, label: "class dtstart", fields: &["class=CONFIDENTIAL", "dtstart"], f: |a| Ok(Any::Todo(ikal::vtodo! { class: Confidential, dtstart: a[1] }?)) },
    Call { kind: Kind::Todo, label: "class geo", fields: &["class=CONFIDENTIAL", "geo"], f: |a| Ok(Any::Todo(ikal::vtodo! { class: Confidential, geo: a[1] }?)) },
    Call { kind: Kind::Todo, label: "class last_modified", fields: &["class=CONFIDENTIAL", "last_modified"], f: |a| Ok(Any::Todo(ikal::vtodo! { class: Confidential, last_modified: a[1] }?)) },
    Call { kind: Kind::Todo, label: "class location", fields: &["class=CONFIDENTIAL", "location"], f: |a| Ok(Any::Todo(ikal::vtodo! { class: Confidential, location: a[1] }?)) },
    Call { kind: Kind::Todo, label: "class organizer", fields: &["class=CONFIDENTIAL", "organizer"], f: |a| Ok(Any::Todo(ikal::vtodo! { class: Confidential, organizer: a[1] }?)) },
    Call { kind: Kind::Todo, label: "class percent_complete", fields: &["class=CONFIDENTIAL", "percent_complete"], f: |a| Ok(Any::Todo(ikal::vtodo! { class: Confidential, percent_complete: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "class priority", fields: &["class=CONFIDENTIAL", "priority"], f: |a| Ok(Any::Todo(ikal::vtodo! { class: Confidential, priority: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "class sequence", fields: &["class=CONFIDENTIAL", "sequence"], f: |a| Ok(Any::Todo(ikal::vtodo! { class: Confidential, sequence: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "class status", fields: &["class=CONFIDENTIAL", "status=IN-PROCESS"], f: |a| Ok(Any::Todo(ikal::vtodo! { class: Confidential, status: InProcess }?)) },
    Call { kind: Kind::Todo, label: "class summary", fields: &["class=CONFIDENTIAL", "summary"], f: |a| Ok(Any::Todo(ikal::vtodo! { class: Confidential, summary: a[1] }?)) },
    Call { kind: Kind::Todo, label: "class url", fields: &["class=CONFIDENTIAL", "url"], f: |a| Ok(Any::Todo(ikal::vtodo! { class: Confidential, url: a[1] }?)) },
    Call { kind: Kind::Todo, label: "class rrule", fields: &["class=CONFIDENTIAL", "rrule"], f: |a| Ok(Any::Todo(ikal::vtodo! { class: Confidential, rrule: a[1] }?)) },
    Call { kind: Kind::Todo, label: "class due", fields: &["class=CONFIDENTIAL", "due"], f: |a| Ok(Any::Todo(ikal::vtodo! { class: Confidential, due: a[1] }?)) },
    Call { kind: Kind::Todo, label: "class duration", fields: &["class=CONFIDENTIAL", "duration"], f: |a| Ok(Any::Todo(ikal::vtodo! { class: Confidential, duration: a[1] }?)) },
    Call { kind: Kind::Todo, label: "class attach", fields: &["class=CONFIDENTIAL", "attach"], f: |a| Ok(Any::Todo(ikal::vtodo! { class: Confidential, attach: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "class attendee", fields: &["class=CONFIDENTIAL", "attendee"], f: |a| Ok(Any::Todo(ikal::vtodo! { class: Confidential, attendee: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "class categories", fields: &["class=CONFIDENTIAL", "categories"], f: |a| Ok(Any::Todo(ikal::vtodo! { class: Confidential, categories: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "class comment", fields: &["class=CONFIDENTIAL", "comment"], f: |a| Ok(Any::Todo(ikal::vtodo! { class: Confidential, comment: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "class contact", fields: &["class=CONFIDENTIAL", "contact"], f: |a| Ok(Any::Todo(ikal::vtodo! { class: Confidential, contact: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "class exdate", fields: &["class=CONFIDENTIAL", "exdate"], f: |a| Ok(Any::Todo(ikal::vtodo! { class: Confidential, exdate: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "class rstatus", fields: &["class=CONFIDENTIAL", "rstatus"], f: |a| Ok(Any::Todo(ikal::vtodo! { class: Confidential, rstatus: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "class related_to", fields: &["class=CONFIDENTIAL", "related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { class: Confidential, related_to: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "class resources", fields: &["class=CONFIDENTIAL", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { class: Confidential, resources: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "completed created", fields: &["completed", "created"], f: |a| Ok(Any::Todo(ikal::vtodo! { completed: a[0], created: a[1] }?)) },
    Call { kind: Kind::Todo, label: "completed dtstart", fields: &["completed", "dtstart"], f: |a| Ok(Any::Todo(ikal::vtodo! { completed: a[0], dtstart: a[1] }?)) },
    Call { kind: Kind::Todo, label: "completed geo", fields: &["completed", "geo"], f: |a| Ok(Any::Todo(ikal::vtodo! { completed: a[0], geo: a[1] }?)) },
    Call { kind: Kind::Todo, label: "completed last_modified", fields: &["completed", "last_modified"], f: |a| Ok(Any::Todo(ikal::vtodo! { completed: a[0], last_modified: a[1] }?)) },
    Call { kind: Kind::Todo, label: "completed location", fields: &["completed", "location"], f: |a| Ok(Any::Todo(ikal::vtodo! { completed: a[0], location: a[1] }?)) },
    Call { kind: Kind::Todo, label: "completed organizer", fields: &["completed", "organizer"], f: |a| Ok(Any::Todo(ikal::vtodo! { completed: a[0], organizer: a[1] }?)) },
    Call { kind: Kind::Todo, label: "completed percent_complete", fields: &["completed", "percent_complete"], f: |a| Ok(Any::Todo(ikal::vtodo! { completed: a[0], percent_complete: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "completed priority", fields: &["completed", "priority"], f: |a| Ok(Any::Todo(ikal::vtodo! { completed: a[0], priority: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "completed sequence", fields: &["completed", "sequence"], f: |a| Ok(Any::Todo(ikal::vtodo! { completed: a[0], sequence: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "completed status", fields: &["completed", "status=IN-PROCESS"], f: |a| Ok(Any::Todo(ikal::vtodo! { completed: a[0], status: InProcess }?)) },
    Call { kind: Kind::Todo, label: "completed summary", fields: &["completed", "summary"], f: |a| Ok(Any::Todo(ikal::vtodo! { completed: a[0], summary: a[1] }?)) },
    Call { kind: Kind::Todo, label: "completed url", fields: &["completed", "url"], f: |a| Ok(Any::Todo(ikal::vtodo! { completed: a[0], url: a[1] }?)) },
    Call { kind: Kind::Todo, label: "completed rrule", fields: &["completed", "rrule"], f: |a| Ok(Any::Todo(ikal::vtodo! { completed: a[0], rrule: a[1] }?)) },
    Call { kind: Kind::Todo, label: "completed due", fields: &["completed", "due"], f: |a| Ok(Any::Todo(ikal::vtodo! { completed: a[0], due: a[1] }?)) },
    Call { kind: Kind::Todo, label: "completed duration", fields: &["completed", "duration"], f: |a| Ok(Any::Todo(ikal::vtodo! { completed: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Todo, label: "completed attach", fields: &["completed", "attach"], f: |a| Ok(Any::Todo(ikal::vtodo! { completed: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "completed attendee", fields: &["completed", "attendee"], f: |a| Ok(Any::Todo(ikal::vtodo! { completed: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "completed categories", fields: &["completed", "categories"], f: |a| Ok(Any::Todo(ikal::vtodo! { completed: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "completed comment", fields: &["completed", "comment"], f: |a| Ok(Any::Todo(ikal::vtodo! { completed: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "completed contact", fields: &["completed", "contact"], f: |a| Ok(Any::Todo(ikal::vtodo! { completed: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "completed exdate", fields: &["completed", "exdate"], f: |a| Ok(Any::Todo(ikal::vtodo! { completed: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "completed rstatus", fields: &["completed", "rstatus"], f: |a| Ok(Any::Todo(ikal::vtodo! { completed: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "completed related_to", fields: &["completed", "related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { completed: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "completed resources", fields: &["completed", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { completed: a[0], resources: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "created dtstart", fields: &["created", "dtstart"], f: |a| Ok(Any::Todo(ikal::vtodo! { created: a[0], dtstart: a[1] }?)) },
    Call { kind: Kind::Todo, label: "created geo", fields: &["created", "geo"], f: |a| Ok(Any::Todo(ikal::vtodo! { created: a[0], geo: a[1] }?)) },
    Call { kind: Kind::Todo, label: "created last_modified", fields: &["created", "last_modified"], f: |a| Ok(Any::Todo(ikal::vtodo! { created: a[0], last_modified: a[1] }?)) },
    Call { kind: Kind::Todo, label: "created location", fields: &["created", "location"], f: |a| Ok(Any::Todo(ikal::vtodo! { created: a[0], location: a[1] }?)) },
    Call { kind: Kind::Todo, label: "created organizer", fields: &["created", "organizer"], f: |a| Ok(Any::Todo(ikal::vtodo! { created: a[0], organizer: a[1] }?)) },
    Call { kind: Kind::Todo, label: "created percent_complete", fields: &["created", "percent_complete"], f: |a| Ok(Any::Todo(ikal::vtodo! { created: a[0], percent_complete: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "created priority", fields: &["created", "priority"], f: |a| Ok(Any::Todo(ikal::vtodo! { created: a[0], priority: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "created sequence", fields: &["created", "sequence"], f: |a| Ok(Any::Todo(ikal::vtodo! { created: a[0], sequence: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "created status", fields: &["created", "status=IN-PROCESS"], f: |a| Ok(Any::Todo(ikal::vtodo! { created: a[0], status: InProcess }?)) },
    Call { kind: Kind::Todo, label: "created summary", fields: &["created", "summary"], f: |a| Ok(Any::Todo(ikal::vtodo! { created: a[0], summary: a[1] }?)) },
    Call { kind: Kind::Todo, label: "created url", fields: &["created", "url"], f: |a| Ok(Any::Todo(ikal::vtodo! { created: a[0], url: a[1] }?)) },
    Call { kind: Kind::Todo, label: "created rrule", fields: &["created", "rrule"], f: |a| Ok(Any::Todo(ikal::vtodo! { created: a[0], rrule: a[1] }?)) },
    Call { kind: Kind::Todo, label: "created due", fields: &["created", "due"], f: |a| Ok(Any::Todo(ikal::vtodo! { created: a[0], due: a[1] }?)) },
    Call { kind: Kind::Todo, label: "created duration", fields: &["created", "duration"], f: |a| Ok(Any::Todo(ikal::vtodo! { created: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Todo, label: "created attach", fields: &["created", "attach"], f: |a| Ok(Any::Todo(ikal::vtodo! { created: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "created attendee", fields: &["created", "attendee"], f: |a| Ok(Any::Todo(ikal::vtodo! { created: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "created categories", fields: &["created", "categories"], f: |a| Ok(Any::Todo(ikal::vtodo! { created: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "created comment", fields: &["created", "comment"], f: |a| Ok(Any::Todo(ikal::vtodo! { created: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "created contact", fields: &["created", "contact"], f: |a| Ok(Any::Todo(ikal::vtodo! { created: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "created exdate", fields: &["created", "exdate"], f: |a| Ok(Any::Todo(ikal::vtodo! { created: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "created rstatus", fields: &["created", "rstatus"], f: |a| Ok(Any::Todo(ikal::vtodo! { created: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "created related_to", fields: &["created", "related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { created: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "created resources", fields: &["created", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { created: a[0], resources: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "dtstart geo", fields: &["dtstart", "geo"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstart: a[0], geo: a[1] }?)) },
    Call { kind: Kind::Todo, label: "dtstart last_modified", fields: &["dtstart", "last_modified"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstart: a[0], last_modified: a[1] }?)) },
    Call { kind: Kind::Todo, label: "dtstart location", fields: &["dtstart", "location"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstart: a[0], location: a[1] }?)) },
    Call { kind: Kind::Todo, label: "dtstart organizer", fields: &["dtstart", "organizer"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstart: a[0], organizer: a[1] }?)) },
    Call { kind: Kind::Todo, label: "dtstart percent_complete", fields: &["dtstart", "percent_complete"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstart: a[0], percent_complete: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "dtstart priority", fields: &["dtstart", "priority"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstart: a[0], priority: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "dtstart sequence", fields: &["dtstart", "sequence"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstart: a[0], sequence: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "dtstart status", fields: &["dtstart", "status=IN-PROCESS"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstart: a[0], status: InProcess }?)) },
    Call { kind: Kind::Todo, label: "dtstart summary", fields: &["dtstart", "summary"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstart: a[0], summary: a[1] }?)) },
    Call { kind: Kind::Todo, label: "dtstart url", fields: &["dtstart", "url"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstart: a[0], url: a[1] }?)) },
    Call { kind: Kind::Todo, label: "dtstart rrule", fields: &["dtstart", "rrule"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstart: a[0], rrule: a[1] }?)) },
    Call { kind: Kind::Todo, label: "dtstart due", fields: &["dtstart", "due"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstart: a[0], due: a[1] }?)) },
    Call { kind: Kind::Todo, label: "dtstart duration", fields: &["dtstart", "duration"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstart: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Todo, label: "dtstart attach", fields: &["dtstart", "attach"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstart: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "dtstart attendee", fields: &["dtstart", "attendee"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstart: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "dtstart categories", fields: &["dtstart", "categories"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstart: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "dtstart comment", fields: &["dtstart", "comment"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstart: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "dtstart contact", fields: &["dtstart", "contact"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstart: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "dtstart exdate", fields: &["dtstart", "exdate"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstart: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "dtstart rstatus", fields: &["dtstart", "rstatus"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstart: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "dtstart related_to", fields: &["dtstart", "related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstart: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "dtstart resources", fields: &["dtstart", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstart: a[0], resources: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "geo last_modified", fields: &["geo", "last_modified"], f: |a| Ok(Any::Todo(ikal::vtodo! { geo: a[0], last_modified: a[1] }?)) },
    Call { kind: Kind::Todo, label: "geo location", fields: &["geo", "location"], f: |a| Ok(Any::Todo(ikal::vtodo! { geo: a[0], location: a[1] }?)) },
    Call { kind: Kind::Todo, label: "geo organizer", fields: &["geo", "organizer"], f: |a| Ok(Any::Todo(ikal::vtodo! { geo: a[0], organizer: a[1] }?)) },
    Call { kind: Kind::Todo, label: "geo percent_complete", fields: &["geo", "percent_complete"], f: |a| Ok(Any::Todo(ikal::vtodo! { geo: a[0], percent_complete: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "geo priority", fields: &["geo", "priority"], f: |a| Ok(Any::Todo(ikal::vtodo! { geo: a[0], priority: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "geo sequence", fields: &["geo", "sequence"], f: |a| Ok(Any::Todo(ikal::vtodo! { geo: a[0], sequence: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "geo status", fields: &["geo", "status=IN-PROCESS"], f: |a| Ok(Any::Todo(ikal::vtodo! { geo: a[0], status: InProcess }?)) },
    Call { kind: Kind::Todo, label: "geo summary", fields: &["geo", "summary"], f: |a| Ok(Any::Todo(ikal::vtodo! { geo: a[0], summary: a[1] }?)) },
    Call { kind: Kind::Todo, label: "geo url", fields: &["geo", "url"], f: |a| Ok(Any::Todo(ikal::vtodo! { geo: a[0], url: a[1] }?)) },
    Call { kind: Kind::Todo, label: "geo rrule", fields: &["geo", "rrule"], f: |a| Ok(Any::Todo(ikal::vtodo! { geo: a[0], rrule: a[1] }?)) },
    Call { kind: Kind::Todo, label: "geo due", fields: &["geo", "due"], f: |a| Ok(Any::Todo(ikal::vtodo! { geo: a[0], due: a[1] }?)) },
    Call { kind: Kind::Todo, label: "geo duration", fields: &["geo", "duration"], f: |a| Ok(Any::Todo(ikal::vtodo! { geo: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Todo, label: "geo attach", fields: &["geo", "attach"], f: |a| Ok(Any::Todo(ikal::vtodo! { geo: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "geo attendee", fields: &["geo", "attendee"], f: |a| Ok(Any::Todo(ikal::vtodo! { geo: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "geo categories", fields: &["geo", "categories"], f: |a| Ok(Any::Todo(ikal::vtodo! { geo: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "geo comment", fields: &["geo", "comment"], f: |a| Ok(Any::Todo(ikal::vtodo! { geo: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "geo contact", fields: &["geo", "contact"], f: |a| Ok(Any::Todo(ikal::vtodo! { geo: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "geo exdate", fields: &["geo", "exdate"], f: |a| Ok(Any::Todo(ikal::vtodo! { geo: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "geo rstatus", fields: &["geo", "rstatus"], f: |a| Ok(Any::Todo(ikal::vtodo! { geo: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "geo related_to", fields: &["geo", "related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { geo: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "geo resources", fields: &["geo", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { geo: a[0], resources: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "last_modified location", fields: &["last_modified", "location"], f: |a| Ok(Any::Todo(ikal::vtodo! { last_modified: a[0], location: a[1] }?)) },
    Call { kind: Kind::Todo, label: "last_modified organizer", fields: &["last_modified", "organizer"], f: |a| Ok(Any::Todo(ikal::vtodo! { last_modified: a[0], organizer: a[1] }?)) },
    Call { kind: Kind::Todo, label: "last_modified percent_complete", fields: &["last_modified", "percent_complete"], f: |a| Ok(Any::Todo(ikal::vtodo! { last_modified: a[0], percent_complete: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "last_modified priority", fields: &["last_modified", "priority"], f: |a| Ok(Any::Todo(ikal::vtodo! { last_modified: a[0], priority: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "last_modified sequence", fields: &["last_modified", "sequence"], f: |a| Ok(Any::Todo(ikal::vtodo! { last_modified: a[0], sequence: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "last_modified status", fields: &["last_modified", "status=IN-PROCESS"], f: |a| Ok(Any::Todo(ikal::vtodo! { last_modified: a[0], status: InProcess }?)) },
    Call { kind: Kind::Todo, label: "last_modified summary", fields: &["last_modified", "summary"], f: |a| Ok(Any::Todo(ikal::vtodo! { last_modified: a[0], summary: a[1] }?)) },
    Call { kind: Kind::Todo, label: "last_modified url", fields: &["last_modified", "url"], f: |a| Ok(Any::Todo(ikal::vtodo! { last_modified: a[0], url: a[1] }?)) },
    Call { kind: Kind::Todo, label: "last_modified rrule", fields: &["last_modified", "rrule"], f: |a| Ok(Any::Todo(ikal::vtodo! { last_modified: a[0], rrule: a[1] }?)) },
    Call { kind: Kind::Todo, label: "last_modified due", fields: &["last_modified", "due"], f: |a| Ok(Any::Todo(ikal::vtodo! { last_modified: a[0], due: a[1] }?)) },
    Call { kind: Kind::Todo, label: "last_modified duration", fields: &["last_modified", "duration"], f: |a| Ok(Any::Todo(ikal::vtodo! { last_modified: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Todo, label: "last_modified attach", fields: &["last_modified", "attach"], f: |a| Ok(Any::Todo(ikal::vtodo! { last_modified: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "last_modified attendee", fields: &["last_modified", "attendee"], f: |a| Ok(Any::Todo(ikal::vtodo! { last_modified: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "last_modified categories", fields: &["last_modified", "categories"], f: |a| Ok(Any::Todo(ikal::vtodo! { last_modified: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "last_modified comment", fields: &["last_modified", "comment"], f: |a| Ok(Any::Todo(ikal::vtodo! { last_modified: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "last_modified contact", fields: &["last_modified", "contact"], f: |a| Ok(Any::Todo(ikal::vtodo! { last_modified: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "last_modified exdate", fields: &["last_modified", "exdate"], f: |a| Ok(Any::Todo(ikal::vtodo! { last_modified: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "last_modified rstatus", fields: &["last_modified", "rstatus"], f: |a| Ok(Any::Todo(ikal::vtodo! { last_modified: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "last_modified related_to", fields: &["last_modified", "related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { last_modified: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "last_modified resources", fields: &["last_modified", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { last_modified: a[0], resources: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "location organizer", fields: &["location", "organizer"], f: |a| Ok(Any::Todo(ikal::vtodo! { location: a[0], organizer: a[1] }?)) },
    Call { kind: Kind::Todo, label: "location percent_complete", fields: &["location", "percent_complete"], f: |a| Ok(Any::Todo(ikal::vtodo! { location: a[0], percent_complete: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "location priority", fields: &["location", "priority"], f: |a| Ok(Any::Todo(ikal::vtodo! { location: a[0], priority: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "location sequence", fields: &["location", "sequence"], f: |a| Ok(Any::Todo(ikal::vtodo! { location: a[0], sequence: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "location status", fields: &["location", "status=IN-PROCESS"], f: |a| Ok(Any::Todo(ikal::vtodo! { location: a[0], status: InProcess }?)) },
    Call { kind: Kind::Todo, label: "location summary", fields: &["location", "summary"], f: |a| Ok(Any::Todo(ikal::vtodo! { location: a[0], summary: a[1] }?)) },
    Call { kind: Kind::Todo, label: "location url", fields: &["location", "url"], f: |a| Ok(Any::Todo(ikal::vtodo! { location: a[0], url: a[1] }?)) },
    Call { kind: Kind::Todo, label: "location rrule", fields: &["location", "rrule"], f: |a| Ok(Any::Todo(ikal::vtodo! { location: a[0], rrule: a[1] }?)) },
    Call { kind: Kind::Todo, label: "location due", fields: &["location", "due"], f: |a| Ok(Any::Todo(ikal::vtodo! { location: a[0], due: a[1] }?)) },
    Call { kind: Kind::Todo, label: "location duration", fields: &["location", "duration"], f: |a| Ok(Any::Todo(ikal::vtodo! { location: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Todo, label: "location attach", fields: &["location", "attach"], f: |a| Ok(Any::Todo(ikal::vtodo! { location: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "location attendee", fields: &["location", "attendee"], f: |a| Ok(Any::Todo(ikal::vtodo! { location: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "location categories", fields: &["location", "categories"], f: |a| Ok(Any::Todo(ikal::vtodo! { location: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "location comment", fields: &["location", "comment"], f: |a| Ok(Any::Todo(ikal::vtodo! { location: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "location contact", fields: &["location", "contact"], f: |a| Ok(Any::Todo(ikal::vtodo! { location: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "location exdate", fields: &["location", "exdate"], f: |a| Ok(Any::Todo(ikal::vtodo! { location: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "location rstatus", fields: &["location", "rstatus"], f: |a| Ok(Any::Todo(ikal::vtodo! { location: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "location related_to", fields: &["location", "related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { location: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "location resources", fields: &["location", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { location: a[0], resources: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "organizer percent_complete", fields: &["organizer", "percent_complete"], f: |a| Ok(Any::Todo(ikal::vtodo! { organizer: a[0], percent_complete: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "organizer priority", fields: &["organizer", "priority"], f: |a| Ok(Any::Todo(ikal::vtodo! { organizer: a[0], priority: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "organizer sequence", fields: &["organizer", "sequence"], f: |a| Ok(Any::Todo(ikal::vtodo! { organizer: a[0], sequence: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "organizer status", fields: &["organizer", "status=IN-PROCESS"], f: |a| Ok(Any::Todo(ikal::vtodo! { organizer: a[0], status: InProcess }?)) },
    Call { kind: Kind::Todo, label: "organizer summary", fields: &["organizer", "summary"], f: |a| Ok(Any::Todo(ikal::vtodo! { organizer: a[0], summary: a[1] }?)) },
    Call { kind: Kind::Todo, label: "organizer url", fields: &["organizer", "url"], f: |a| Ok(Any::Todo(ikal::vtodo! { organizer: a[0], url: a[1] }?)) },
    Call { kind: Kind::Todo, label: "organizer rrule", fields: &["organizer", "rrule"], f: |a| Ok(Any::Todo(ikal::vtodo! { organizer: a[0], rrule: a[1] }?)) },
    Call { kind: Kind::Todo, label: "organizer due", fields: &["organizer", "due"], f: |a| Ok(Any::Todo(ikal::vtodo! { organizer: a[0], due: a[1] }?)) },
    Call { kind: Kind::Todo, label: "organizer duration", fields: &["organizer", "duration"], f: |a| Ok(Any::Todo(ikal::vtodo! { organizer: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Todo, label: "organizer attach", fields: &["organizer", "attach"], f: |a| Ok(Any::Todo(ikal::vtodo! { organizer: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "organizer attendee", fields: &["organizer", "attendee"], f: |a| Ok(Any::Todo(ikal::vtodo! { organizer: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "organizer categories", fields: &["organizer", "categories"], f: |a| Ok(Any::Todo(ikal::vtodo! { organizer: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "organizer comment", fields: &["organizer", "comment"], f: |a| Ok(Any::Todo(ikal::vtodo! { organizer: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "organizer contact", fields: &["organizer", "contact"], f: |a| Ok(Any::Todo(ikal::vtodo! { organizer: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "organizer exdate", fields: &["organizer", "exdate"], f: |a| Ok(Any::Todo(ikal::vtodo! { organizer: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "organizer rstatus", fields: &["organizer", "rstatus"], f: |a| Ok(Any::Todo(ikal::vtodo! { organizer: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "organizer related_to", fields: &["organizer", "related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { organizer: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "organizer resources", fields: &["organizer", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { organizer: a[0], resources: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "percent_complete priority", fields: &["percent_complete", "priority"], f: |a| Ok(Any::Todo(ikal::vtodo! { percent_complete: num::<u8>(a[0]), priority: num::<u8>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "percent_complete sequence", fields: &["percent_complete", "sequence"], f: |a| Ok(Any::Todo(ikal::vtodo! { percent_complete: num::<u8>(a[0]), sequence: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "percent_complete status", fields: &["percent_complete", "status=IN-PROCESS"], f: |a| Ok(Any::Todo(ikal::vtodo! { percent_complete: num::<u8>(a[0]), status: InProcess }?)) },
    Call { kind: Kind::Todo, label: "percent_complete summary", fields: &["percent_complete", "summary"], f: |a| Ok(Any::Todo(ikal::vtodo! { percent_complete: num::<u8>(a[0]), summary: a[1] }?)) },
    Call { kind: Kind::Todo, label: "percent_complete url", fields: &["percent_complete", "url"], f: |a| Ok(Any::Todo(ikal::vtodo! { percent_complete: num::<u8>(a[0]), url: a[1] }?)) },
    Call { kind: Kind::Todo, label: "percent_complete rrule", fields: &["percent_complete", "rrule"], f: |a| Ok(Any::Todo(ikal::vtodo! { percent_complete: num::<u8>(a[0]), rrule: a[1] }?)) },
    Call { kind: Kind::Todo, label: "percent_complete due", fields: &["percent_complete", "due"], f: |a| Ok(Any::Todo(ikal::vtodo! { percent_complete: num::<u8>(a[0]), due: a[1] }?)) },
    Call { kind: Kind::Todo, label: "percent_complete duration", fields: &["percent_complete", "duration"], f: |a| Ok(Any::Todo(ikal::vtodo! { percent_complete: num::<u8>(a[0]), duration: a[1] }?)) },
    Call { kind: Kind::Todo, label: "percent_complete attach", fields: &["percent_complete", "attach"], f: |a| Ok(Any::Todo(ikal::vtodo! { percent_complete: num::<u8>(a[0]), attach: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "percent_complete attendee", fields: &["percent_complete", "attendee"], f: |a| Ok(Any::Todo(ikal::vtodo! { percent_complete: num::<u8>(a[0]), attendee: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "percent_complete categories", fields: &["percent_complete", "categories"], f: |a| Ok(Any::Todo(ikal::vtodo! { percent_complete: num::<u8>(a[0]), categories: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "percent_complete comment", fields: &["percent_complete", "comment"], f: |a| Ok(Any::Todo(ikal::vtodo! { percent_complete: num::<u8>(a[0]), comment: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "percent_complete contact", fields: &["percent_complete", "contact"], f: |a| Ok(Any::Todo(ikal::vtodo! { percent_complete: num::<u8>(a[0]), contact: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "percent_complete exdate", fields: &["percent_complete", "exdate"], f: |a| Ok(Any::Todo(ikal::vtodo! { percent_complete: num::<u8>(a[0]), exdate: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "percent_complete rstatus", fields: &["percent_complete", "rstatus"], f: |a| Ok(Any::Todo(ikal::vtodo! { percent_complete: num::<u8>(a[0]), rstatus: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "percent_complete related_to", fields: &["percent_complete", "related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { percent_complete: num::<u8>(a[0]), related_to: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "percent_complete resources", fields: &["percent_complete", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { percent_complete: num::<u8>(a[0]), resources: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "priority sequence", fields: &["priority", "sequence"], f: |a| Ok(Any::Todo(ikal::vtodo! { priority: num::<u8>(a[0]), sequence: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Todo, label: "priority status", fields: &["priority", "status=IN-PROCESS"], f: |a| Ok(Any::Todo(ikal::vtodo! { priority: num::<u8>(a[0]), status: InProcess }?)) },
    Call { kind: Kind::Todo, label: "priority summary", fields: &["priority", "summary"], f: |a| Ok(Any::Todo(ikal::vtodo! { priority: num::<u8>(a[0]), summary: a[1] }?)) },
    Call { kind: Kind::Todo, label: "priority url", fields: &["priority", "url"], f: |a| Ok(Any::Todo(ikal::vtodo! { priority: num::<u8>(a[0]), url: a[1] }?)) },
    Call { kind: Kind::Todo, label: "priority rrule", fields: &["priority", "rrule"], f: |a| Ok(Any::Todo(ikal::vtodo! { priority: num::<u8>(a[0]), rrule: a[1] }?)) },
    Call { kind: Kind::Todo, label: "priority due", fields: &["priority", "due"], f: |a| Ok(Any::Todo(ikal::vtodo! { priority: num::<u8>(a[0]), due: a[1] }?)) },
    Call { kind: Kind::Todo, label: "priority duration", fields: &["priority", "duration"], f: |a| Ok(Any::Todo(ikal::vtodo! { priority: num::<u8>(a[0]), duration: a[1] }?)) },
    Call { kind: Kind::Todo, label: "priority attach", fields: &["priority", "attach"], f: |a| Ok(Any::Todo(ikal::vtodo! { priority: num::<u8>(a[0]), attach: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "priority attendee", fields: &["priority", "attendee"], f: |a| Ok(Any::Todo(ikal::vtodo! { priority: num::<u8>(a[0]), attendee: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "priority categories", fields: &["priority", "categories"], f: |a| Ok(Any::Todo(ikal::vtodo! { priority: num::<u8>(a[0]), categories: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "priority comment", fields: &["priority", "comment"], f: |a| Ok(Any::Todo(ikal::vtodo! { priority: num::<u8>(a[0]), comment: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "priority contact", fields: &["priority", "contact"], f: |a| Ok(Any::Todo(ikal::vtodo! { priority: num::<u8>(a[0]), contact: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "priority exdate", fields: &["priority", "exdate"], f: |a| Ok(Any::Todo(ikal::vtodo! { priority: num::<u8>(a[0]), exdate: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "priority rstatus", fields: &["priority", "rstatus"], f: |a| Ok(Any::Todo(ikal::vtodo! { priority: num::<u8>(a[0]), rstatus: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "priority related_to", fields: &["priority", "related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { priority: num::<u8>(a[0]), related_to: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "priority resources", fields: &["priority", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { priority: num::<u8>(a[0]), resources: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "sequence status", fields: &["sequence", "status=IN-PROCESS"], f: |a| Ok(Any::Todo(ikal::vtodo! { sequence: num::<u32>(a[0]), status: InProcess }?)) },
    Call { kind: Kind::Todo, label: "sequence summary", fields: &["sequence", "summary"], f: |a| Ok(Any::Todo(ikal::vtodo! { sequence: num::<u32>(a[0]), summary: a[1] }?)) },
    Call { kind: Kind::Todo, label: "sequence url", fields: &["sequence", "url"], f: |a| Ok(Any::Todo(ikal::vtodo! { sequence: num::<u32>(a[0]), url: a[1] }?)) },
    Call { kind: Kind::Todo, label: "sequence rrule", fields: &["sequence", "rrule"], f: |a| Ok(Any::Todo(ikal::vtodo! { sequence: num::<u32>(a[0]), rrule: a[1] }?)) },
    Call { kind: Kind::Todo, label: "sequence due", fields: &["sequence", "due"], f: |a| Ok(Any::Todo(ikal::vtodo! { sequence: num::<u32>(a[0]), due: a[1] }?)) },
    Call { kind: Kind::Todo, label: "sequence duration", fields: &["sequence", "duration"], f: |a| Ok(Any::Todo(ikal::vtodo! { sequence: num::<u32>(a[0]), duration: a[1] }?)) },
    Call { kind: Kind::Todo, label: "sequence attach", fields: &["sequence", "attach"], f: |a| Ok(Any::Todo(ikal::vtodo! { sequence: num::<u32>(a[0]), attach: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "sequence attendee", fields: &["sequence", "attendee"], f: |a| Ok(Any::Todo(ikal::vtodo! { sequence: num::<u32>(a[0]), attendee: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "sequence categories", fields: &["sequence", "categories"], f: |a| Ok(Any::Todo(ikal::vtodo! { sequence: num::<u32>(a[0]), categories: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "sequence comment", fields: &["sequence", "comment"], f: |a| Ok(Any::Todo(ikal::vtodo! { sequence: num::<u32>(a[0]), comment: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "sequence contact", fields: &["sequence", "contact"], f: |a| Ok(Any::Todo(ikal::vtodo! { sequence: num::<u32>(a[0]), contact: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "sequence exdate", fields: &["sequence", "exdate"], f: |a| Ok(Any::Todo(ikal::vtodo! { sequence: num::<u32>(a[0]), exdate: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "sequence rstatus", fields: &["sequence", "rstatus"], f: |a| Ok(Any::Todo(ikal::vtodo! { sequence: num::<u32>(a[0]), rstatus: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "sequence related_to", fields: &["sequence", "related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { sequence: num::<u32>(a[0]), related_to: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "sequence resources", fields: &["sequence", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { sequence: num::<u32>(a[0]), resources: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "status summary", fields: &["status=IN-PROCESS", "summary"], f: |a| Ok(Any::Todo(ikal::vtodo! { status: InProcess, summary: a[1] }?)) },
    Call { kind: Kind::Todo, label: "status url", fields: &["status=IN-PROCESS", "url"], f: |a| Ok(Any::Todo(ikal::vtodo! { status: InProcess, url: a[1] }?)) },
    Call { kind: Kind::Todo, label: "status rrule", fields: &["status=IN-PROCESS", "rrule"], f: |a| Ok(Any::Todo(ikal::vtodo! { status: InProcess, rrule: a[1] }?)) },
    Call { kind: Kind::Todo, label: "status due", fields: &["status=IN-PROCESS", "due"], f: |a| Ok(Any::Todo(ikal::vtodo! { status: InProcess, due: a[1] }?)) },
    Call { kind: Kind::Todo, label: "status duration", fields: &["status=IN-PROCESS", "duration"], f: |a| Ok(Any::Todo(ikal::vtodo! { status: InProcess, duration: a[1] }?)) },
    Call { kind: Kind::Todo, label: "status attach", fields: &["status=IN-PROCESS", "attach"], f: |a| Ok(Any::Todo(ikal::vtodo! { status: InProcess, attach: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "status attendee", fields: &["status=IN-PROCESS", "attendee"], f: |a| Ok(Any::Todo(ikal::vtodo! { status: InProcess, attendee: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "status categories", fields: &["status=IN-PROCESS", "categories"], f: |a| Ok(Any::Todo(ikal::vtodo! { status: InProcess, categories: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "status comment", fields: &["status=IN-PROCESS", "comment"], f: |a| Ok(Any::Todo(ikal::vtodo! { status: InProcess, comment: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "status contact", fields: &["status=IN-PROCESS", "contact"], f: |a| Ok(Any::Todo(ikal::vtodo! { status: InProcess, contact: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "status exdate", fields: &["status=IN-PROCESS", "exdate"], f: |a| Ok(Any::Todo(ikal::vtodo! { status: InProcess, exdate: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "status rstatus", fields: &["status=IN-PROCESS", "rstatus"], f: |a| Ok(Any::Todo(ikal::vtodo! { status: InProcess, rstatus: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "status related_to", fields: &["status=IN-PROCESS", "related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { status: InProcess, related_to: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "status resources", fields: &["status=IN-PROCESS", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { status: InProcess, resources: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "summary url", fields: &["summary", "url"], f: |a| Ok(Any::Todo(ikal::vtodo! { summary: a[0], url: a[1] }?)) },
    Call { kind: Kind::Todo, label: "summary rrule", fields: &["summary", "rrule"], f: |a| Ok(Any::Todo(ikal::vtodo! { summary: a[0], rrule: a[1] }?)) },
    Call { kind: Kind::Todo, label: "summary due", fields: &["summary", "due"], f: |a| Ok(Any::Todo(ikal::vtodo! { summary: a[0], due: a[1] }?)) },
    Call { kind: Kind::Todo, label: "summary duration", fields: &["summary", "duration"], f: |a| Ok(Any::Todo(ikal::vtodo! { summary: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Todo, label: "summary attach", fields: &["summary", "attach"], f: |a| Ok(Any::Todo(ikal::vtodo! { summary: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "summary attendee", fields: &["summary", "attendee"], f: |a| Ok(Any::Todo(ikal::vtodo! { summary: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "summary categories", fields: &["summary", "categories"], f: |a| Ok(Any::Todo(ikal::vtodo! { summary: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "summary comment", fields: &["summary", "comment"], f: |a| Ok(Any::Todo(ikal::vtodo! { summary: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "summary contact", fields: &["summary", "contact"], f: |a| Ok(Any::Todo(ikal::vtodo! { summary: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "summary exdate", fields: &["summary", "exdate"], f: |a| Ok(Any::Todo(ikal::vtodo! { summary: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "summary rstatus", fields: &["summary", "rstatus"], f: |a| Ok(Any::Todo(ikal::vtodo! { summary: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "summary related_to", fields: &["summary", "related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { summary: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "summary resources", fields: &["summary", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { summary: a[0], resources: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "url rrule", fields: &["url", "rrule"], f: |a| Ok(Any::Todo(ikal::vtodo! { url: a[0], rrule: a[1] }?)) },
    Call { kind: Kind::Todo, label: "url due", fields: &["url", "due"], f: |a| Ok(Any::Todo(ikal::vtodo! { url: a[0], due: a[1] }?)) },
    Call { kind: Kind::Todo, label: "url duration", fields: &["url", "duration"], f: |a| Ok(Any::Todo(ikal::vtodo! { url: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Todo, label: "url attach", fields: &["url", "attach"], f: |a| Ok(Any::Todo(ikal::vtodo! { url: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "url attendee", fields: &["url", "attendee"], f: |a| Ok(Any::Todo(ikal::vtodo! { url: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "url categories", fields: &["url", "categories"], f: |a| Ok(Any::Todo(ikal::vtodo! { url: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "url comment", fields: &["url", "comment"], f: |a| Ok(Any::Todo(ikal::vtodo! { url: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "url contact", fields: &["url", "contact"], f: |a| Ok(Any::Todo(ikal::vtodo! { url: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "url exdate", fields: &["url", "exdate"], f: |a| Ok(Any::Todo(ikal::vtodo! { url: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "url rstatus", fields: &["url", "rstatus"], f: |a| Ok(Any::Todo(ikal::vtodo! { url: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "url related_to", fields: &["url", "related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { url: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "url resources", fields: &["url", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { url: a[0], resources: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "rrule due", fields: &["rrule", "due"], f: |a| Ok(Any::Todo(ikal::vtodo! { rrule: a[0], due: a[1] }?)) },
    Call { kind: Kind::Todo, label: "rrule duration", fields: &["rrule", "duration"], f: |a| Ok(Any::Todo(ikal::vtodo! { rrule: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Todo, label: "rrule attach", fields: &["rrule", "attach"], f: |a| Ok(Any::Todo(ikal::vtodo! { rrule: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "rrule attendee", fields: &["rrule", "attendee"], f: |a| Ok(Any::Todo(ikal::vtodo! { rrule: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "rrule categories", fields: &["rrule", "categories"], f: |a| Ok(Any::Todo(ikal::vtodo! { rrule: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "rrule comment", fields: &["rrule", "comment"], f: |a| Ok(Any::Todo(ikal::vtodo! { rrule: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "rrule contact", fields: &["rrule", "contact"], f: |a| Ok(Any::Todo(ikal::vtodo! { rrule: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "rrule exdate", fields: &["rrule", "exdate"], f: |a| Ok(Any::Todo(ikal::vtodo! { rrule: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "rrule rstatus", fields: &["rrule", "rstatus"], f: |a| Ok(Any::Todo(ikal::vtodo! { rrule: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "rrule related_to", fields: &["rrule", "related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { rrule: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "rrule resources", fields: &["rrule", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { rrule: a[0], resources: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "due duration", fields: &["due", "duration"], f: |a| Ok(Any::Todo(ikal::vtodo! { due: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Todo, label: "due attach", fields: &["due", "attach"], f: |a| Ok(Any::Todo(ikal::vtodo! { due: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "due attendee", fields: &["due", "attendee"], f: |a| Ok(Any::Todo(ikal::vtodo! { due: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "due categories", fields: &["due", "categories"], f: |a| Ok(Any::Todo(ikal::vtodo! { due: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "due comment", fields: &["due", "comment"], f: |a| Ok(Any::Todo(ikal::vtodo! { due: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "due contact", fields: &["due", "contact"], f: |a| Ok(Any::Todo(ikal::vtodo! { due: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "due exdate", fields: &["due", "exdate"], f: |a| Ok(Any::Todo(ikal::vtodo! { due: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "due rstatus", fields: &["due", "rstatus"], f: |a| Ok(Any::Todo(ikal::vtodo! { due: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "due related_to", fields: &["due", "related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { due: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "due resources", fields: &["due", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { due: a[0], resources: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "duration attach", fields: &["duration", "attach"], f: |a| Ok(Any::Todo(ikal::vtodo! { duration: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "duration attendee", fields: &["duration", "attendee"], f: |a| Ok(Any::Todo(ikal::vtodo! { duration: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "duration categories", fields: &["duration", "categories"], f: |a| Ok(Any::Todo(ikal::vtodo! { duration: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "duration comment", fields: &["duration", "comment"], f: |a| Ok(Any::Todo(ikal::vtodo! { duration: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "duration contact", fields: &["duration", "contact"], f: |a| Ok(Any::Todo(ikal::vtodo! { duration: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "duration exdate", fields: &["duration", "exdate"], f: |a| Ok(Any::Todo(ikal::vtodo! { duration: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "duration rstatus", fields: &["duration", "rstatus"], f: |a| Ok(Any::Todo(ikal::vtodo! { duration: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "duration related_to", fields: &["duration", "related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { duration: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "duration resources", fields: &["duration", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { duration: a[0], resources: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "attach attendee", fields: &["attach", "attendee"], f: |a| Ok(Any::Todo(ikal::vtodo! { attach: [a[0]], attendee: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "attach categories", fields: &["attach", "categories"], f: |a| Ok(Any::Todo(ikal::vtodo! { attach: [a[0]], categories: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "attach comment", fields: &["attach", "comment"], f: |a| Ok(Any::Todo(ikal::vtodo! { attach: [a[0]], comment: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "attach contact", fields: &["attach", "contact"], f: |a| Ok(Any::Todo(ikal::vtodo! { attach: [a[0]], contact: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "attach exdate", fields: &["attach", "exdate"], f: |a| Ok(Any::Todo(ikal::vtodo! { attach: [a[0]], exdate: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "attach rstatus", fields: &["attach", "rstatus"], f: |a| Ok(Any::Todo(ikal::vtodo! { attach: [a[0]], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "attach related_to", fields: &["attach", "related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { attach: [a[0]], related_to: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "attach resources", fields: &["attach", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { attach: [a[0]], resources: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "attendee categories", fields: &["attendee", "categories"], f: |a| Ok(Any::Todo(ikal::vtodo! { attendee: [a[0]], categories: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "attendee comment", fields: &["attendee", "comment"], f: |a| Ok(Any::Todo(ikal::vtodo! { attendee: [a[0]], comment: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "attendee contact", fields: &["attendee", "contact"], f: |a| Ok(Any::Todo(ikal::vtodo! { attendee: [a[0]], contact: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "attendee exdate", fields: &["attendee", "exdate"], f: |a| Ok(Any::Todo(ikal::vtodo! { attendee: [a[0]], exdate: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "attendee rstatus", fields: &["attendee", "rstatus"], f: |a| Ok(Any::Todo(ikal::vtodo! { attendee: [a[0]], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "attendee related_to", fields: &["attendee", "related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { attendee: [a[0]], related_to: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "attendee resources", fields: &["attendee", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { attendee: [a[0]], resources: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "categories comment", fields: &["categories", "comment"], f: |a| Ok(Any::Todo(ikal::vtodo! { categories: [a[0]], comment: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "categories contact", fields: &["categories", "contact"], f: |a| Ok(Any::Todo(ikal::vtodo! { categories: [a[0]], contact: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "categories exdate", fields: &["categories", "exdate"], f: |a| Ok(Any::Todo(ikal::vtodo! { categories: [a[0]], exdate: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "categories rstatus", fields: &["categories", "rstatus"], f: |a| Ok(Any::Todo(ikal::vtodo! { categories: [a[0]], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "categories related_to", fields: &["categories", "related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { categories: [a[0]], related_to: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "categories resources", fields: &["categories", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { categories: [a[0]], resources: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "comment contact", fields: &["comment", "contact"], f: |a| Ok(Any::Todo(ikal::vtodo! { comment: [a[0]], contact: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "comment exdate", fields: &["comment", "exdate"], f: |a| Ok(Any::Todo(ikal::vtodo! { comment: [a[0]], exdate: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "comment rstatus", fields: &["comment", "rstatus"], f: |a| Ok(Any::Todo(ikal::vtodo! { comment: [a[0]], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "comment related_to", fields: &["comment", "related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { comment: [a[0]], related_to: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "comment resources", fields: &["comment", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { comment: [a[0]], resources: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "contact exdate", fields: &["contact", "exdate"], f: |a| Ok(Any::Todo(ikal::vtodo! { contact: [a[0]], exdate: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "contact rstatus", fields: &["contact", "rstatus"], f: |a| Ok(Any::Todo(ikal::vtodo! { contact: [a[0]], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "contact related_to", fields: &["contact", "related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { contact: [a[0]], related_to: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "contact resources", fields: &["contact", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { contact: [a[0]], resources: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "exdate rstatus", fields: &["exdate", "rstatus"], f: |a| Ok(Any::Todo(ikal::vtodo! { exdate: [a[0]], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "exdate related_to", fields: &["exdate", "related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { exdate: [a[0]], related_to: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "exdate resources", fields: &["exdate", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { exdate: [a[0]], resources: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "rstatus related_to", fields: &["rstatus", "related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { rstatus: [a[0]], related_to: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "rstatus resources", fields: &["rstatus", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { rstatus: [a[0]], resources: [a[1]] }?)) },
    Call { kind: Kind::Todo, label: "related_to resources", fields: &["related_to", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { related_to: [a[0]], resources: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "dtstamp uid", fields: &["dtstamp", "uid"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1] }?)) },
    Call { kind: Kind::Journal, label: "dtstamp dtstart", fields: &["dtstamp", "dtstart"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], dtstart: a[1] }?)) },
    Call { kind: Kind::Journal, label: "dtstamp class", fields: &["dtstamp", "class=CONFIDENTIAL"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], class: Confidential }?)) },
    Call { kind: Kind::Journal, label: "dtstamp created", fields: &["dtstamp", "created"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], created: a[1] }?)) },
    Call { kind: Kind::Journal, label: "dtstamp last_modified", fields: &["dtstamp", "last_modified"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], last_modified: a[1] }?)) },
    Call { kind: Kind::Journal, label: "dtstamp organizer", fields: &["dtstamp", "organizer"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], organizer: a[1] }?)) },
    Call { kind: Kind::Journal, label: "dtstamp sequence", fields: &["dtstamp", "sequence"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], sequence: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Journal, label: "dtstamp status", fields: &["dtstamp", "status=IN-PROCESS"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], status: InProcess }?)) },
    Call { kind: Kind::Journal, label: "dtstamp summary", fields: &["dtstamp", "summary"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], summary: a[1] }?)) },
    Call { kind: Kind::Journal, label: "dtstamp url", fields: &["dtstamp", "url"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], url: a[1] }?)) },
    Call { kind: Kind::Journal, label: "dtstamp rrule", fields: &["dtstamp", "rrule"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], rrule: a[1] }?)) },
    Call { kind: Kind::Journal, label: "dtstamp attach", fields: &["dtstamp", "attach"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "dtstamp attendee", fields: &["dtstamp", "attendee"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "dtstamp categories", fields: &["dtstamp", "categories"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "dtstamp comment", fields: &["dtstamp", "comment"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "dtstamp contact", fields: &["dtstamp", "contact"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "dtstamp description", fields: &["dtstamp", "description"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], description: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "dtstamp exdate", fields: &["dtstamp", "exdate"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "dtstamp related_to", fields: &["dtstamp", "related_to"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "dtstamp rstatus", fields: &["dtstamp", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "uid dtstart", fields: &["uid", "dtstart"], f: |a| Ok(Any::Journal(ikal::vjournal! { uid: a[0], dtstart: a[1] }?)) },
    Call { kind: Kind::Journal, label: "uid class", fields: &["uid", "class=CONFIDENTIAL"], f: |a| Ok(Any::Journal(ikal::vjournal! { uid: a[0], class: Confidential }?)) },
    Call { kind: Kind::Journal, label: "uid created", fields: &["uid", "created"], f: |a| Ok(Any::Journal(ikal::vjournal! { uid: a[0], created: a[1] }?)) },
    Call { kind: Kind::Journal, label: "uid last_modified", fields: &["uid", "last_modified"], f: |a| Ok(Any::Journal(ikal::vjournal! { uid: a[0], last_modified: a[1] }?)) },
    Call { kind: Kind::Journal, label: "uid organizer", fields: &["uid", "organizer"], f: |a| Ok(Any::Journal(ikal::vjournal! { uid: a[0], organizer: a[1] }?)) },
    Call { kind: Kind::Journal, label: "uid sequence", fields: &["uid", "sequence"], f: |a| Ok(Any::Journal(ikal::vjournal! { uid: a[0], sequence: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Journal, label: "uid status", fields: &["uid", "status=IN-PROCESS"], f: |a| Ok(Any::Journal(ikal::vjournal! { uid: a[0], status: InProcess }?)) },
    Call { kind: Kind::Journal, label: "uid summary", fields: &["uid", "summary"], f: |a| Ok(Any::Journal(ikal::vjournal! { uid: a[0], summary: a[1] }?)) },
    Call { kind: Kind::Journal, label: "uid url", fields: &["uid", "url"], f: |a| Ok(Any::Journal(ikal::vjournal! { uid: a[0], url: a[1] }?)) },
    Call { kind: Kind::Journal, label: "uid rrule", fields: &["uid", "rrule"], f: |a| Ok(Any::Journal(ikal::vjournal! { uid: a[0], rrule: a[1] }?)) },
    Call { kind: Kind::Journal, label: "uid attach", fields: &["uid", "attach"], f: |a| Ok(Any::Journal(ikal::vjournal! { uid: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "uid attendee", fields: &["uid", "attendee"], f: |a| Ok(Any::Journal(ikal::vjournal! { uid: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "uid categories", fields: &["uid", "categories"], f: |a| Ok(Any::Journal(ikal::vjournal! { uid: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "uid comment", fields: &["uid", "comment"], f: |a| Ok(Any::Journal(ikal::vjournal! { uid: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "uid contact", fields: &["uid", "contact"], f: |a| Ok(Any::Journal(ikal::vjournal! { uid: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "uid description", fields: &["uid", "description"], f: |a| Ok(Any::Journal(ikal::vjournal! { uid: a[0], description: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "uid exdate", fields: &["uid", "exdate"], f: |a| Ok(Any::Journal(ikal::vjournal! { uid: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "uid related_to", fields: &["uid", "related_to"], f: |a| Ok(Any::Journal(ikal::vjournal! { uid: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "uid rstatus", fields: &["uid", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { uid: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "dtstart class", fields: &["dtstart", "class=CONFIDENTIAL"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstart: a[0], class: Confidential }?)) },
    Call { kind: Kind::Journal, label: "dtstart created", fields: &["dtstart", "created"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstart: a[0], created: a[1] }?)) },
    Call { kind: Kind::Journal, label: "dtstart last_modified", fields: &["dtstart", "last_modified"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstart: a[0], last_modified: a[1] }?)) },
    Call { kind: Kind::Journal, label: "dtstart organizer", fields: &["dtstart", "organizer"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstart: a[0], organizer: a[1] }?)) },
    Call { kind: Kind::Journal, label: "dtstart sequence", fields: &["dtstart", "sequence"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstart: a[0], sequence: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Journal, label: "dtstart status", fields: &["dtstart", "status=IN-PROCESS"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstart: a[0], status: InProcess }?)) },
    Call { kind: Kind::Journal, label: "dtstart summary", fields: &["dtstart", "summary"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstart: a[0], summary: a[1] }?)) },
    Call { kind: Kind::Journal, label: "dtstart url", fields: &["dtstart", "url"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstart: a[0], url: a[1] }?)) },
    Call { kind: Kind::Journal, label: "dtstart rrule", fields: &["dtstart", "rrule"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstart: a[0], rrule: a[1] }?)) },
    Call { kind: Kind::Journal, label: "dtstart attach", fields: &["dtstart", "attach"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstart: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "dtstart attendee", fields: &["dtstart", "attendee"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstart: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "dtstart categories", fields: &["dtstart", "categories"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstart: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "dtstart comment", fields: &["dtstart", "comment"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstart: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "dtstart contact", fields: &["dtstart", "contact"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstart: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "dtstart description", fields: &["dtstart", "description"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstart: a[0], description: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "dtstart exdate", fields: &["dtstart", "exdate"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstart: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "dtstart related_to", fields: &["dtstart", "related_to"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstart: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "dtstart rstatus", fields: &["dtstart", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstart: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "class created", fields: &["class=CONFIDENTIAL", "created"], f: |a| Ok(Any::Journal(ikal::vjournal! { class: Confidential, created: a[1] }?)) },
    Call { kind: Kind::Journal, label: "class last_modified", fields: &["class=CONFIDENTIAL", "last_modified"], f: |a| Ok(Any::Journal(ikal::vjournal! { class: Confidential, last_modified: a[1] }?)) },
    Call { kind: Kind::Journal, label: "class organizer", fields: &["class=CONFIDENTIAL", "organizer"], f: |a| Ok(Any::Journal(ikal::vjournal! { class: Confidential, organizer: a[1] }?)) },
    Call { kind: Kind::Journal, label: "class sequence", fields: &["class=CONFIDENTIAL", "sequence"], f: |a| Ok(Any::Journal(ikal::vjournal! { class: Confidential, sequence: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Journal, label: "class status", fields: &["class=CONFIDENTIAL", "status=IN-PROCESS"], f: |a| Ok(Any::Journal(ikal::vjournal! { class: Confidential, status: InProcess }?)) },
    Call { kind: Kind::Journal, label: "class summary", fields: &["class=CONFIDENTIAL", "summary"], f: |a| Ok(Any::Journal(ikal::vjournal! { class: Confidential, summary: a[1] }?)) },
    Call { kind: Kind::Journal, label: "class url", fields: &["class=CONFIDENTIAL", "url"], f: |a| Ok(Any::Journal(ikal::vjournal! { class: Confidential, url: a[1] }?)) },
    Call { kind: Kind::Journal, label: "class rrule", fields: &["class=CONFIDENTIAL", "rrule"], f: |a| Ok(Any::Journal(ikal::vjournal! { class: Confidential, rrule: a[1] }?)) },
    Call { kind: Kind::Journal, label: "class attach", fields: &["class=CONFIDENTIAL", "attach"], f: |a| Ok(Any::Journal(ikal::vjournal! { class: Confidential, attach: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "class attendee", fields: &["class=CONFIDENTIAL", "attendee"], f: |a| Ok(Any::Journal(ikal::vjournal! { class: Confidential, attendee: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "class categories", fields: &["class=CONFIDENTIAL", "categories"], f: |a| Ok(Any::Journal(ikal::vjournal! { class: Confidential, categories: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "class comment", fields: &["class=CONFIDENTIAL", "comment"], f: |a| Ok(Any::Journal(ikal::vjournal! { class: Confidential, comment: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "class contact", fields: &["class=CONFIDENTIAL", "contact"], f: |a| Ok(Any::Journal(ikal::vjournal! { class: Confidential, contact: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "class description", fields: &["class=CONFIDENTIAL", "description"], f: |a| Ok(Any::Journal(ikal::vjournal! { class: Confidential, description: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "class exdate", fields: &["class=CONFIDENTIAL", "exdate"], f: |a| Ok(Any::Journal(ikal::vjournal! { class: Confidential, exdate: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "class related_to", fields: &["class=CONFIDENTIAL", "related_to"], f: |a| Ok(Any::Journal(ikal::vjournal! { class: Confidential, related_to: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "class rstatus", fields: &["class=CONFIDENTIAL", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { class: Confidential, rstatus: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "created last_modified", fields: &["created", "last_modified"], f: |a| Ok(Any::Journal(ikal::vjournal! { created: a[0], last_modified: a[1] }?)) },
    Call { kind: Kind::Journal, label: "created organizer", fields: &["created", "organizer"], f: |a| Ok(Any::Journal(ikal::vjournal! { created: a[0], organizer: a[1] }?)) },
    Call { kind: Kind::Journal, label: "created sequence", fields: &["created", "sequence"], f: |a| Ok(Any::Journal(ikal::vjournal! { created: a[0], sequence: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Journal, label: "created status", fields: &["created", "status=IN-PROCESS"], f: |a| Ok(Any::Journal(ikal::vjournal! { created: a[0], status: InProcess }?)) },
    Call { kind: Kind::Journal, label: "created summary", fields: &["created", "summary"], f: |a| Ok(Any::Journal(ikal::vjournal! { created: a[0], summary: a[1] }?)) },
    Call { kind: Kind::Journal, label: "created url", fields: &["created", "url"], f: |a| Ok(Any::Journal(ikal::vjournal! { created: a[0], url: a[1] }?)) },
    Call { kind: Kind::Journal, label: "created rrule", fields: &["created", "rrule"], f: |a| Ok(Any::Journal(ikal::vjournal! { created: a[0], rrule: a[1] }?)) },
    Call { kind: Kind::Journal, label: "created attach", fields: &["created", "attach"], f: |a| Ok(Any::Journal(ikal::vjournal! { created: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "created attendee", fields: &["created", "attendee"], f: |a| Ok(Any::Journal(ikal::vjournal! { created: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "created categories", fields: &["created", "categories"], f: |a| Ok(Any::Journal(ikal::vjournal! { created: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "created comment", fields: &["created", "comment"], f: |a| Ok(Any::Journal(ikal::vjournal! { created: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "created contact", fields: &["created", "contact"], f: |a| Ok(Any::Journal(ikal::vjournal! { created: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "created description", fields: &["created", "description"], f: |a| Ok(Any::Journal(ikal::vjournal! { created: a[0], description: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "created exdate", fields: &["created", "exdate"], f: |a| Ok(Any::Journal(ikal::vjournal! { created: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "created related_to", fields: &["created", "related_to"], f: |a| Ok(Any::Journal(ikal::vjournal! { created: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "created rstatus", fields: &["created", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { created: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "last_modified organizer", fields: &["last_modified", "organizer"], f: |a| Ok(Any::Journal(ikal::vjournal! { last_modified: a[0], organizer: a[1] }?)) },
    Call { kind: Kind::Journal, label: "last_modified sequence", fields: &["last_modified", "sequence"], f: |a| Ok(Any::Journal(ikal::vjournal! { last_modified: a[0], sequence: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Journal, label: "last_modified status", fields: &["last_modified", "status=IN-PROCESS"], f: |a| Ok(Any::Journal(ikal::vjournal! { last_modified: a[0], status: InProcess }?)) },
    Call { kind: Kind::Journal, label: "last_modified summary", fields: &["last_modified", "summary"], f: |a| Ok(Any::Journal(ikal::vjournal! { last_modified: a[0], summary: a[1] }?)) },
    Call { kind: Kind::Journal, label: "last_modified url", fields: &["last_modified", "url"], f: |a| Ok(Any::Journal(ikal::vjournal! { last_modified: a[0], url: a[1] }?)) },
    Call { kind: Kind::Journal, label: "last_modified rrule", fields: &["last_modified", "rrule"], f: |a| Ok(Any::Journal(ikal::vjournal! { last_modified: a[0], rrule: a[1] }?)) },
    Call { kind: Kind::Journal, label: "last_modified attach", fields: &["last_modified", "attach"], f: |a| Ok(Any::Journal(ikal::vjournal! { last_modified: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "last_modified attendee", fields: &["last_modified", "attendee"], f: |a| Ok(Any::Journal(ikal::vjournal! { last_modified: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "last_modified categories", fields: &["last_modified", "categories"], f: |a| Ok(Any::Journal(ikal::vjournal! { last_modified: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "last_modified comment", fields: &["last_modified", "comment"], f: |a| Ok(Any::Journal(ikal::vjournal! { last_modified: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "last_modified contact", fields: &["last_modified", "contact"], f: |a| Ok(Any::Journal(ikal::vjournal! { last_modified: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "last_modified description", fields: &["last_modified", "description"], f: |a| Ok(Any::Journal(ikal::vjournal! { last_modified: a[0], description: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "last_modified exdate", fields: &["last_modified", "exdate"], f: |a| Ok(Any::Journal(ikal::vjournal! { last_modified: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "last_modified related_to", fields: &["last_modified", "related_to"], f: |a| Ok(Any::Journal(ikal::vjournal! { last_modified: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "last_modified rstatus", fields: &["last_modified", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { last_modified: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "organizer sequence", fields: &["organizer", "sequence"], f: |a| Ok(Any::Journal(ikal::vjournal! { organizer: a[0], sequence: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Journal, label: "organizer status", fields: &["organizer", "status=IN-PROCESS"], f: |a| Ok(Any::Journal(ikal::vjournal! { organizer: a[0], status: InProcess }?)) },
    Call { kind: Kind::Journal, label: "organizer summary", fields: &["organizer", "summary"], f: |a| Ok(Any::Journal(ikal::vjournal! { organizer: a[0], summary: a[1] }?)) },
    Call { kind: Kind::Journal, label: "organizer url", fields: &["organizer", "url"], f: |a| Ok(Any::Journal(ikal::vjournal! { organizer: a[0], url: a[1] }?)) },
    Call { kind: Kind::Journal, label: "organizer rrule", fields: &["organizer", "rrule"], f: |a| Ok(Any::Journal(ikal::vjournal! { organizer: a[0], rrule: a[1] }?)) },
    Call { kind: Kind::Journal, label: "organizer attach", fields: &["organizer", "attach"], f: |a| Ok(Any::Journal(ikal::vjournal! { organizer: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "organizer attendee", fields: &["organizer", "attendee"], f: |a| Ok(Any::Journal(ikal::vjournal! { organizer: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "organizer categories", fields: &["organizer", "categories"], f: |a| Ok(Any::Journal(ikal::vjournal! { organizer: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "organizer comment", fields: &["organizer", "comment"], f: |a| Ok(Any::Journal(ikal::vjournal! { organizer: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "organizer contact", fields: &["organizer", "contact"], f: |a| Ok(Any::Journal(ikal::vjournal! { organizer: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "organizer description", fields: &["organizer", "description"], f: |a| Ok(Any::Journal(ikal::vjournal! { organizer: a[0], description: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "organizer exdate", fields: &["organizer", "exdate"], f: |a| Ok(Any::Journal(ikal::vjournal! { organizer: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "organizer related_to", fields: &["organizer", "related_to"], f: |a| Ok(Any::Journal(ikal::vjournal! { organizer: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "organizer rstatus", fields: &["organizer", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { organizer: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "sequence status", fields: &["sequence", "status=IN-PROCESS"], f: |a| Ok(Any::Journal(ikal::vjournal! { sequence: num::<u32>(a[0]), status: InProcess }?)) },
    Call { kind: Kind::Journal, label: "sequence summary", fields: &["sequence", "summary"], f: |a| Ok(Any::Journal(ikal::vjournal! { sequence: num::<u32>(a[0]), summary: a[1] }?)) },
    Call { kind: Kind::Journal, label: "sequence url", fields: &["sequence", "url"], f: |a| Ok(Any::Journal(ikal::vjournal! { sequence: num::<u32>(a[0]), url: a[1] }?)) },
    Call { kind: Kind::Journal, label: "sequence rrule", fields: &["sequence", "rrule"], f: |a| Ok(Any::Journal(ikal::vjournal! { sequence: num::<u32>(a[0]), rrule: a[1] }?)) },
    Call { kind: Kind::Journal, label: "sequence attach", fields: &["sequence", "attach"], f: |a| Ok(Any::Journal(ikal::vjournal! { sequence: num::<u32>(a[0]), attach: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "sequence attendee", fields: &["sequence", "attendee"], f: |a| Ok(Any::Journal(ikal::vjournal! { sequence: num::<u32>(a[0]), attendee: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "sequence categories", fields: &["sequence", "categories"], f: |a| Ok(Any::Journal(ikal::vjournal! { sequence: num::<u32>(a[0]), categories: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "sequence comment", fields: &["sequence", "comment"], f: |a| Ok(Any::Journal(ikal::vjournal! { sequence: num::<u32>(a[0]), comment: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "sequence contact", fields: &["sequence", "contact"], f: |a| Ok(Any::Journal(ikal::vjournal! { sequence: num::<u32>(a[0]), contact: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "sequence description", fields: &["sequence", "description"], f: |a| Ok(Any::Journal(ikal::vjournal! { sequence: num::<u32>(a[0]), description: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "sequence exdate", fields: &["sequence", "exdate"], f: |a| Ok(Any::Journal(ikal::vjournal! { sequence: num::<u32>(a[0]), exdate: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "sequence related_to", fields: &["sequence", "related_to"], f: |a| Ok(Any::Journal(ikal::vjournal! { sequence: num::<u32>(a[0]), related_to: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "sequence rstatus", fields: &["sequence", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { sequence: num::<u32>(a[0]), rstatus: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "status summary", fields: &["status=IN-PROCESS", "summary"], f: |a| Ok(Any::Journal(ikal::vjournal! { status: InProcess, summary: a[1] }?)) },
    Call { kind: Kind::Journal, label: "status url", fields: &["status=IN-PROCESS", "url"], f: |a| Ok(Any::Journal(ikal::vjournal! { status: InProcess, url: a[1] }?)) },
    Call { kind: Kind::Journal, label: "status rrule", fields: &["status=IN-PROCESS", "rrule"], f: |a| Ok(Any::Journal(ikal::vjournal! { status: InProcess, rrule: a[1] }?)) },
    Call { kind: Kind::Journal, label: "status attach", fields: &["status=IN-PROCESS", "attach"], f: |a| Ok(Any::Journal(ikal::vjournal! { status: InProcess, attach: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "status attendee", fields: &["status=IN-PROCESS", "attendee"], f: |a| Ok(Any::Journal(ikal::vjournal! { status: InProcess, attendee: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "status categories", fields: &["status=IN-PROCESS", "categories"], f: |a| Ok(Any::Journal(ikal::vjournal! { status: InProcess, categories: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "status comment", fields: &["status=IN-PROCESS", "comment"], f: |a| Ok(Any::Journal(ikal::vjournal! { status: InProcess, comment: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "status contact", fields: &["status=IN-PROCESS", "contact"], f: |a| Ok(Any::Journal(ikal::vjournal! { status: InProcess, contact: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "status description", fields: &["status=IN-PROCESS", "description"], f: |a| Ok(Any::Journal(ikal::vjournal! { status: InProcess, description: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "status exdate", fields: &["status=IN-PROCESS", "exdate"], f: |a| Ok(Any::Journal(ikal::vjournal! { status: InProcess, exdate: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "status related_to", fields: &["status=IN-PROCESS", "related_to"], f: |a| Ok(Any::Journal(ikal::vjournal! { status: InProcess, related_to: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "status rstatus", fields: &["status=IN-PROCESS", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { status: InProcess, rstatus: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "summary url", fields: &["summary", "url"], f: |a| Ok(Any::Journal(ikal::vjournal! { summary: a[0], url: a[1] }?)) },
    Call { kind: Kind::Journal, label: "summary rrule", fields: &["summary", "rrule"], f: |a| Ok(Any::Journal(ikal::vjournal! { summary: a[0], rrule: a[1] }?)) },
    Call { kind: Kind::Journal, label: "summary attach", fields: &["summary", "attach"], f: |a| Ok(Any::Journal(ikal::vjournal! { summary: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "summary attendee", fields: &["summary", "attendee"], f: |a| Ok(Any::Journal(ikal::vjournal! { summary: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "summary categories", fields: &["summary", "categories"], f: |a| Ok(Any::Journal(ikal::vjournal! { summary: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "summary comment", fields: &["summary", "comment"], f: |a| Ok(Any::Journal(ikal::vjournal! { summary: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "summary contact", fields: &["summary", "contact"], f: |a| Ok(Any::Journal(ikal::vjournal! { summary: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "summary description", fields: &["summary", "description"], f: |a| Ok(Any::Journal(ikal::vjournal! { summary: a[0], description: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "summary exdate", fields: &["summary", "exdate"], f: |a| Ok(Any::Journal(ikal::vjournal! { summary: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "summary related_to", fields: &["summary", "related_to"], f: |a| Ok(Any::Journal(ikal::vjournal! { summary: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "summary rstatus", fields: &["summary", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { summary: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "url rrule", fields: &["url", "rrule"], f: |a| Ok(Any::Journal(ikal::vjournal! { url: a[0], rrule: a[1] }?)) },
    Call { kind: Kind::Journal, label: "url attach", fields: &["url", "attach"], f: |a| Ok(Any::Journal(ikal::vjournal! { url: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "url attendee", fields: &["url", "attendee"], f: |a| Ok(Any::Journal(ikal::vjournal! { url: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "url categories", fields: &["url", "categories"], f: |a| Ok(Any::Journal(ikal::vjournal! { url: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "url comment", fields: &["url", "comment"], f: |a| Ok(Any::Journal(ikal::vjournal! { url: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "url contact", fields: &["url", "contact"], f: |a| Ok(Any::Journal(ikal::vjournal! { url: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "url description", fields: &["url", "description"], f: |a| Ok(Any::Journal(ikal::vjournal! { url: a[0], description: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "url exdate", fields: &["url", "exdate"], f: |a| Ok(Any::Journal(ikal::vjournal! { url: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "url related_to", fields: &["url", "related_to"], f: |a| Ok(Any::Journal(ikal::vjournal! { url: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "url rstatus", fields: &["url", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { url: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "rrule attach", fields: &["rrule", "attach"], f: |a| Ok(Any::Journal(ikal::vjournal! { rrule: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "rrule attendee", fields: &["rrule", "attendee"], f: |a| Ok(Any::Journal(ikal::vjournal! { rrule: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "rrule categories", fields: &["rrule", "categories"], f: |a| Ok(Any::Journal(ikal::vjournal! { rrule: a[0], categories: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "rrule comment", fields: &["rrule", "comment"], f: |a| Ok(Any::Journal(ikal::vjournal! { rrule: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "rrule contact", fields: &["rrule", "contact"], f: |a| Ok(Any::Journal(ikal::vjournal! { rrule: a[0], contact: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "rrule description", fields: &["rrule", "description"], f: |a| Ok(Any::Journal(ikal::vjournal! { rrule: a[0], description: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "rrule exdate", fields: &["rrule", "exdate"], f: |a| Ok(Any::Journal(ikal::vjournal! { rrule: a[0], exdate: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "rrule related_to", fields: &["rrule", "related_to"], f: |a| Ok(Any::Journal(ikal::vjournal! { rrule: a[0], related_to: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "rrule rstatus", fields: &["rrule", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { rrule: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "attach attendee", fields: &["attach", "attendee"], f: |a| Ok(Any::Journal(ikal::vjournal! { attach: [a[0]], attendee: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "attach categories", fields: &["attach", "categories"], f: |a| Ok(Any::Journal(ikal::vjournal! { attach: [a[0]], categories: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "attach comment", fields: &["attach", "comment"], f: |a| Ok(Any::Journal(ikal::vjournal! { attach: [a[0]], comment: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "attach contact", fields: &["attach", "contact"], f: |a| Ok(Any::Journal(ikal::vjournal! { attach: [a[0]], contact: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "attach description", fields: &["attach", "description"], f: |a| Ok(Any::Journal(ikal::vjournal! { attach: [a[0]], description: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "attach exdate", fields: &["attach", "exdate"], f: |a| Ok(Any::Journal(ikal::vjournal! { attach: [a[0]], exdate: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "attach related_to", fields: &["attach", "related_to"], f: |a| Ok(Any::Journal(ikal::vjournal! { attach: [a[0]], related_to: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "attach rstatus", fields: &["attach", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { attach: [a[0]], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "attendee categories", fields: &["attendee", "categories"], f: |a| Ok(Any::Journal(ikal::vjournal! { attendee: [a[0]], categories: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "attendee comment", fields: &["attendee", "comment"], f: |a| Ok(Any::Journal(ikal::vjournal! { attendee: [a[0]], comment: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "attendee contact", fields: &["attendee", "contact"], f: |a| Ok(Any::Journal(ikal::vjournal! { attendee: [a[0]], contact: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "attendee description", fields: &["attendee", "description"], f: |a| Ok(Any::Journal(ikal::vjournal! { attendee: [a[0]], description: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "attendee exdate", fields: &["attendee", "exdate"], f: |a| Ok(Any::Journal(ikal::vjournal! { attendee: [a[0]], exdate: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "attendee related_to", fields: &["attendee", "related_to"], f: |a| Ok(Any::Journal(ikal::vjournal! { attendee: [a[0]], related_to: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "attendee rstatus", fields: &["attendee", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { attendee: [a[0]], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "categories comment", fields: &["categories", "comment"], f: |a| Ok(Any::Journal(ikal::vjournal! { categories: [a[0]], comment: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "categories contact", fields: &["categories", "contact"], f: |a| Ok(Any::Journal(ikal::vjournal! { categories: [a[0]], contact: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "categories description", fields: &["categories", "description"], f: |a| Ok(Any::Journal(ikal::vjournal! { categories: [a[0]], description: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "categories exdate", fields: &["categories", "exdate"], f: |a| Ok(Any::Journal(ikal::vjournal! { categories: [a[0]], exdate: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "categories related_to", fields: &["categories", "related_to"], f: |a| Ok(Any::Journal(ikal::vjournal! { categories: [a[0]], related_to: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "categories rstatus", fields: &["categories", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { categories: [a[0]], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "comment contact", fields: &["comment", "contact"], f: |a| Ok(Any::Journal(ikal::vjournal! { comment: [a[0]], contact: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "comment description", fields: &["comment", "description"], f: |a| Ok(Any::Journal(ikal::vjournal! { comment: [a[0]], description: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "comment exdate", fields: &["comment", "exdate"], f: |a| Ok(Any::Journal(ikal::vjournal! { comment: [a[0]], exdate: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "comment related_to", fields: &["comment", "related_to"], f: |a| Ok(Any::Journal(ikal::vjournal! { comment: [a[0]], related_to: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "comment rstatus", fields: &["comment", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { comment: [a[0]], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "contact description", fields: &["contact", "description"], f: |a| Ok(Any::Journal(ikal::vjournal! { contact: [a[0]], description: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "contact exdate", fields: &["contact", "exdate"], f: |a| Ok(Any::Journal(ikal::vjournal! { contact: [a[0]], exdate: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "contact related_to", fields: &["contact", "related_to"], f: |a| Ok(Any::Journal(ikal::vjournal! { contact: [a[0]], related_to: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "contact rstatus", fields: &["contact", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { contact: [a[0]], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "description exdate", fields: &["description", "exdate"], f: |a| Ok(Any::Journal(ikal::vjournal! { description: [a[0]], exdate: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "description related_to", fields: &["description", "related_to"], f: |a| Ok(Any::Journal(ikal::vjournal! { description: [a[0]], related_to: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "description rstatus", fields: &["description", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { description: [a[0]], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "exdate related_to", fields: &["exdate", "related_to"], f: |a| Ok(Any::Journal(ikal::vjournal! { exdate: [a[0]], related_to: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "exdate rstatus", fields: &["exdate", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { exdate: [a[0]], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Journal, label: "related_to rstatus", fields: &["related_to", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { related_to: [a[0]], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "dtstamp uid", fields: &["dtstamp", "uid"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], uid: a[1] }?)) },
    Call { kind: Kind::Freebusy, label: "dtstamp contact", fields: &["dtstamp", "contact"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], contact: a[1] }?)) },
    Call { kind: Kind::Freebusy, label: "dtstamp dtstart", fields: &["dtstamp", "dtstart"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], dtstart: a[1] }?)) },
    Call { kind: Kind::Freebusy, label: "dtstamp dtend", fields: &["dtstamp", "dtend"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], dtend: a[1] }?)) },
    Call { kind: Kind::Freebusy, label: "dtstamp organizer", fields: &["dtstamp", "organizer"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], organizer: a[1] }?)) },
    Call { kind: Kind::Freebusy, label: "dtstamp url", fields: &["dtstamp", "url"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], url: a[1] }?)) },
    Call { kind: Kind::Freebusy, label: "dtstamp attendee", fields: &["dtstamp", "attendee"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "dtstamp comment", fields: &["dtstamp", "comment"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "dtstamp freebusy", fields: &["dtstamp", "freebusy"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], freebusy: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "dtstamp rstatus", fields: &["dtstamp", "rstatus"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "uid contact", fields: &["uid", "contact"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { uid: a[0], contact: a[1] }?)) },
    Call { kind: Kind::Freebusy, label: "uid dtstart", fields: &["uid", "dtstart"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { uid: a[0], dtstart: a[1] }?)) },
    Call { kind: Kind::Freebusy, label: "uid dtend", fields: &["uid", "dtend"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { uid: a[0], dtend: a[1] }?)) },
    Call { kind: Kind::Freebusy, label: "uid organizer", fields: &["uid", "organizer"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { uid: a[0], organizer: a[1] }?)) },
    Call { kind: Kind::Freebusy, label: "uid url", fields: &["uid", "url"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { uid: a[0], url: a[1] }?)) },
    Call { kind: Kind::Freebusy, label: "uid attendee", fields: &["uid", "attendee"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { uid: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "uid comment", fields: &["uid", "comment"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { uid: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "uid freebusy", fields: &["uid", "freebusy"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { uid: a[0], freebusy: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "uid rstatus", fields: &["uid", "rstatus"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { uid: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "contact dtstart", fields: &["contact", "dtstart"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { contact: a[0], dtstart: a[1] }?)) },
    Call { kind: Kind::Freebusy, label: "contact dtend", fields: &["contact", "dtend"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { contact: a[0], dtend: a[1] }?)) },
    Call { kind: Kind::Freebusy, label: "contact organizer", fields: &["contact", "organizer"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { contact: a[0], organizer: a[1] }?)) },
    Call { kind: Kind::Freebusy, label: "contact url", fields: &["contact", "url"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { contact: a[0], url: a[1] }?)) },
    Call { kind: Kind::Freebusy, label: "contact attendee", fields: &["contact", "attendee"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { contact: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "contact comment", fields: &["contact", "comment"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { contact: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "contact freebusy", fields: &["contact", "freebusy"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { contact: a[0], freebusy: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "contact rstatus", fields: &["contact", "rstatus"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { contact: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "dtstart dtend", fields: &["dtstart", "dtend"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstart: a[0], dtend: a[1] }?)) },
    Call { kind: Kind::Freebusy, label: "dtstart organizer", fields: &["dtstart", "organizer"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstart: a[0], organizer: a[1] }?)) },
    Call { kind: Kind::Freebusy, label: "dtstart url", fields: &["dtstart", "url"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstart: a[0], url: a[1] }?)) },
    Call { kind: Kind::Freebusy, label: "dtstart attendee", fields: &["dtstart", "attendee"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstart: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "dtstart comment", fields: &["dtstart", "comment"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstart: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "dtstart freebusy", fields: &["dtstart", "freebusy"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstart: a[0], freebusy: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "dtstart rstatus", fields: &["dtstart", "rstatus"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstart: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "dtend organizer", fields: &["dtend", "organizer"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtend: a[0], organizer: a[1] }?)) },
    Call { kind: Kind::Freebusy, label: "dtend url", fields: &["dtend", "url"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtend: a[0], url: a[1] }?)) },
    Call { kind: Kind::Freebusy, label: "dtend attendee", fields: &["dtend", "attendee"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtend: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "dtend comment", fields: &["dtend", "comment"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtend: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "dtend freebusy", fields: &["dtend", "freebusy"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtend: a[0], freebusy: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "dtend rstatus", fields: &["dtend", "rstatus"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtend: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "organizer url", fields: &["organizer", "url"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { organizer: a[0], url: a[1] }?)) },
    Call { kind: Kind::Freebusy, label: "organizer attendee", fields: &["organizer", "attendee"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { organizer: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "organizer comment", fields: &["organizer", "comment"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { organizer: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "organizer freebusy", fields: &["organizer", "freebusy"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { organizer: a[0], freebusy: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "organizer rstatus", fields: &["organizer", "rstatus"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { organizer: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "url attendee", fields: &["url", "attendee"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { url: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "url comment", fields: &["url", "comment"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { url: a[0], comment: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "url freebusy", fields: &["url", "freebusy"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { url: a[0], freebusy: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "url rstatus", fields: &["url", "rstatus"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { url: a[0], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "attendee comment", fields: &["attendee", "comment"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { attendee: [a[0]], comment: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "attendee freebusy", fields: &["attendee", "freebusy"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { attendee: [a[0]], freebusy: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "attendee rstatus", fields: &["attendee", "rstatus"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { attendee: [a[0]], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "comment freebusy", fields: &["comment", "freebusy"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { comment: [a[0]], freebusy: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "comment rstatus", fields: &["comment", "rstatus"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { comment: [a[0]], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Freebusy, label: "freebusy rstatus", fields: &["freebusy", "rstatus"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { freebusy: [a[0]], rstatus: [a[1]] }?)) },
    Call { kind: Kind::Timezone, label: "tzid last_modified", fields: &["tzid", "last_modified"], f: |a| Ok(Any::Timezone(ikal::vtimezone! { tzid: a[0], last_modified: a[1] }?)) },
    Call { kind: Kind::Timezone, label: "tzid tzurl", fields: &["tzid", "tzurl"], f: |a| Ok(Any::Timezone(ikal::vtimezone! { tzid: a[0], tzurl: a[1] }?)) },
    Call { kind: Kind::Timezone, label: "last_modified tzurl", fields: &["last_modified", "tzurl"], f: |a| Ok(Any::Timezone(ikal::vtimezone! { last_modified: a[0], tzurl: a[1] }?)) },
    Call { kind: Kind::Standard, label: "dtstart tzoffsetto", fields: &["dtstart", "tzoffsetto"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ dtstart: a[0], tzoffsetto: a[1] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "dtstart tzoffsetfrom", fields: &["dtstart", "tzoffsetfrom"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ dtstart: a[0], tzoffsetfrom: a[1] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "dtstart rrule", fields: &["dtstart", "rrule"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ dtstart: a[0], rrule: a[1] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "dtstart comment", fields: &["dtstart", "comment"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ dtstart: a[0], comment: [a[1]] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "dtstart tzname", fields: &["dtstart", "tzname"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ dtstart: a[0], tzname: [a[1]] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "tzoffsetto tzoffsetfrom", fields: &["tzoffsetto", "tzoffsetfrom"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ tzoffsetto: a[0], tzoffsetfrom: a[1] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "tzoffsetto rrule", fields: &["tzoffsetto", "rrule"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ tzoffsetto: a[0], rrule: a[1] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "tzoffsetto comment", fields: &["tzoffsetto", "comment"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ tzoffsetto: a[0], comment: [a[1]] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "tzoffsetto tzname", fields: &["tzoffsetto", "tzname"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ tzoffsetto: a[0], tzname: [a[1]] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "tzoffsetfrom rrule", fields: &["tzoffsetfrom", "rrule"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ tzoffsetfrom: a[0], rrule: a[1] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "tzoffsetfrom comment", fields: &["tzoffsetfrom", "comment"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ tzoffsetfrom: a[0], comment: [a[1]] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "tzoffsetfrom tzname", fields: &["tzoffsetfrom", "tzname"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ tzoffsetfrom: a[0], tzname: [a[1]] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "rrule comment", fields: &["rrule", "comment"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ rrule: a[0], comment: [a[1]] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "rrule tzname", fields: &["rrule", "tzname"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ rrule: a[0], tzname: [a[1]] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "comment tzname", fields: &["comment", "tzname"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ comment: [a[0]], tzname: [a[1]] }] }?.standard.remove(0))) },
    Call { kind: Kind::Daylight, label: "dtstart tzoffsetto", fields: &["dtstart", "tzoffsetto"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ dtstart: a[0], tzoffsetto: a[1] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "dtstart tzoffsetfrom", fields: &["dtstart", "tzoffsetfrom"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ dtstart: a[0], tzoffsetfrom: a[1] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "dtstart rrule", fields: &["dtstart", "rrule"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ dtstart: a[0], rrule: a[1] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "dtstart comment", fields: &["dtstart", "comment"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ dtstart: a[0], comment: [a[1]] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "dtstart tzname", fields: &["dtstart", "tzname"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ dtstart: a[0], tzname: [a[1]] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "tzoffsetto tzoffsetfrom", fields: &["tzoffsetto", "tzoffsetfrom"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ tzoffsetto: a[0], tzoffsetfrom: a[1] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "tzoffsetto rrule", fields: &["tzoffsetto", "rrule"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ tzoffsetto: a[0], rrule: a[1] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "tzoffsetto comment", fields: &["tzoffsetto", "comment"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ tzoffsetto: a[0], comment: [a[1]] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "tzoffsetto tzname", fields: &["tzoffsetto", "tzname"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ tzoffsetto: a[0], tzname: [a[1]] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "tzoffsetfrom rrule", fields: &["tzoffsetfrom", "rrule"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ tzoffsetfrom: a[0], rrule: a[1] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "tzoffsetfrom comment", fields: &["tzoffsetfrom", "comment"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ tzoffsetfrom: a[0], comment: [a[1]] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "tzoffsetfrom tzname", fields: &["tzoffsetfrom", "tzname"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ tzoffsetfrom: a[0], tzname: [a[1]] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "rrule comment", fields: &["rrule", "comment"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ rrule: a[0], comment: [a[1]] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "rrule tzname", fields: &["rrule", "tzname"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ rrule: a[0], tzname: [a[1]] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "comment tzname", fields: &["comment", "tzname"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ comment: [a[0]], tzname: [a[1]] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Audio, label: "action trigger", fields: &["action", "trigger"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, action: a[0], trigger: a[1] }?)) },
    Call { kind: Kind::Audio, label: "action duration", fields: &["action", "duration"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, action: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Audio, label: "action repeat", fields: &["action", "repeat"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, action: a[0], repeat: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Audio, label: "action attach", fields: &["action", "attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, action: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Audio, label: "trigger duration", fields: &["trigger", "duration"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, trigger: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Audio, label: "trigger repeat", fields: &["trigger", "repeat"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, trigger: a[0], repeat: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Audio, label: "trigger attach", fields: &["trigger", "attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, trigger: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Audio, label: "duration repeat", fields: &["duration", "repeat"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, duration: a[0], repeat: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Audio, label: "duration attach", fields: &["duration", "attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, duration: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Audio, label: "repeat attach", fields: &["repeat", "attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, repeat: num::<u32>(a[0]), attach: [a[1]] }?)) },
    Call { kind: Kind::Display, label: "action trigger", fields: &["action", "trigger"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, action: a[0], trigger: a[1] }?)) },
    Call { kind: Kind::Display, label: "action description", fields: &["action", "description"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, action: a[0], description: a[1] }?)) },
    Call { kind: Kind::Display, label: "action duration", fields: &["action", "duration"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, action: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Display, label: "action repeat", fields: &["action", "repeat"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, action: a[0], repeat: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Display, label: "trigger description", fields: &["trigger", "description"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, trigger: a[0], description: a[1] }?)) },
    Call { kind: Kind::Display, label: "trigger duration", fields: &["trigger", "duration"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, trigger: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Display, label: "trigger repeat", fields: &["trigger", "repeat"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, trigger: a[0], repeat: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Display, label: "description duration", fields: &["description", "duration"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, description: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Display, label: "description repeat", fields: &["description", "repeat"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, description: a[0], repeat: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Display, label: "duration repeat", fields: &["duration", "repeat"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, duration: a[0], repeat: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Email, label: "action trigger", fields: &["action", "trigger"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, action: a[0], trigger: a[1] }?)) },
    Call { kind: Kind::Email, label: "action description", fields: &["action", "description"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, action: a[0], description: a[1] }?)) },
    Call { kind: Kind::Email, label: "action summary", fields: &["action", "summary"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, action: a[0], summary: a[1] }?)) },
    Call { kind: Kind::Email, label: "action attendee", fields: &["action", "attendee"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, action: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Email, label: "action duration", fields: &["action", "duration"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, action: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Email, label: "action repeat", fields: &["action", "repeat"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, action: a[0], repeat: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Email, label: "action attach", fields: &["action", "attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, action: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Email, label: "trigger description", fields: &["trigger", "description"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, trigger: a[0], description: a[1] }?)) },
    Call { kind: Kind::Email, label: "trigger summary", fields: &["trigger", "summary"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, trigger: a[0], summary: a[1] }?)) },
    Call { kind: Kind::Email, label: "trigger attendee", fields: &["trigger", "attendee"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, trigger: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Email, label: "trigger duration", fields: &["trigger", "duration"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, trigger: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Email, label: "trigger repeat", fields: &["trigger", "repeat"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, trigger: a[0], repeat: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Email, label: "trigger attach", fields: &["trigger", "attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, trigger: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Email, label: "description summary", fields: &["description", "summary"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, description: a[0], summary: a[1] }?)) },
    Call { kind: Kind::Email, label: "description attendee", fields: &["description", "attendee"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, description: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Email, label: "description duration", fields: &["description", "duration"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, description: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Email, label: "description repeat", fields: &["description", "repeat"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, description: a[0], repeat: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Email, label: "description attach", fields: &["description", "attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, description: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Email, label: "summary attendee", fields: &["summary", "attendee"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, summary: a[0], attendee: [a[1]] }?)) },
    Call { kind: Kind::Email, label: "summary duration", fields: &["summary", "duration"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, summary: a[0], duration: a[1] }?)) },
    Call { kind: Kind::Email, label: "summary repeat", fields: &["summary", "repeat"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, summary: a[0], repeat: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Email, label: "summary attach", fields: &["summary", "attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, summary: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Email, label: "attendee duration", fields: &["attendee", "duration"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, attendee: [a[0]], duration: a[1] }?)) },
    Call { kind: Kind::Email, label: "attendee repeat", fields: &["attendee", "repeat"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, attendee: [a[0]], repeat: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Email, label: "attendee attach", fields: &["attendee", "attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, attendee: [a[0]], attach: [a[1]] }?)) },
    Call { kind: Kind::Email, label: "duration repeat", fields: &["duration", "repeat"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, duration: a[0], repeat: num::<u32>(a[1]) }?)) },
    Call { kind: Kind::Email, label: "duration attach", fields: &["duration", "attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, duration: a[0], attach: [a[1]] }?)) },
    Call { kind: Kind::Email, label: "repeat attach", fields: &["repeat", "attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, repeat: num::<u32>(a[0]), attach: [a[1]] }?)) },
];

pub const ALL: &[Call] = &[
    Call { kind: Kind::Calendar, label: "all", fields: &["prodid", "version", "calscale", "method"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { prodid: a[0], version: a[1], calscale: a[2], method: a[3] }?)) },
    Call { kind: Kind::Calendar, label: "all reversed", fields: &["method", "calscale", "version", "prodid"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { method: a[0], calscale: a[1], version: a[2], prodid: a[3] }?)) },
    Call { kind: Kind::Calendar, label: "all but prodid", fields: &["version", "calscale", "method"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { version: a[0], calscale: a[1], method: a[2] }?)) },
    Call { kind: Kind::Calendar, label: "all but version", fields: &["prodid", "calscale", "method"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { prodid: a[0], calscale: a[1], method: a[2] }?)) },
    Call { kind: Kind::Calendar, label: "all but calscale", fields: &["prodid", "version", "method"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { prodid: a[0], version: a[1], method: a[2] }?)) },
    Call { kind: Kind::Calendar, label: "all but method", fields: &["prodid", "version", "calscale"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { prodid: a[0], version: a[1], calscale: a[2] }?)) },
    Call { kind: Kind::Event, label: "all", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "description", "geo", "last_modified", "location", "organizer", "priority", "sequence", "status=IN-PROCESS", "summary", "transp=TRANSPARENT", "url", "rrule", "dtend", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], description: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], priority: num::<u8>(a[10]), sequence: num::<u32>(a[11]), status: InProcess, summary: a[13], transp: Transparent, url: a[15], rrule: a[16], dtend: a[17], duration: a[18], attach: [a[19]], attendee: [a[20]], categories: [a[21]], comment: [a[22]], contact: [a[23]], exdate: [a[24]], rstatus: [a[25]], related_to: [a[26]], resources: [a[27]] }?)) },
    Call { kind: Kind::Event, label: "all reversed", fields: &["resources", "related_to", "rstatus", "exdate", "contact", "comment", "categories", "attendee", "attach", "duration", "dtend", "rrule", "url", "transp=TRANSPARENT", "summary", "status=IN-PROCESS", "sequence", "priority", "organizer", "location", "last_modified", "geo", "description", "created", "class=CONFIDENTIAL", "dtstart", "uid", "dtstamp"], f: |a| Ok(Any::Event(ikal::vevent! { resources: [a[0]], related_to: [a[1]], rstatus: [a[2]], exdate: [a[3]], contact: [a[4]], comment: [a[5]], categories: [a[6]], attendee: [a[7]], attach: [a[8]], duration: a[9], dtend: a[10], rrule: a[11], url: a[12], transp: Transparent, summary: a[14], status: InProcess, sequence: num::<u32>(a[16]), priority: num::<u8>(a[17]), organizer: a[18], location: a[19], last_modified: a[20], geo: a[21], description: a[22], created: a[23], class: Confidential, dtstart: a[25], uid: a[26], dtstamp: a[27] }?)) },
    Call { kind: Kind::Event, label: "all but dtstamp", fields: &["uid", "dtstart", "class=CONFIDENTIAL", "created", "description", "geo", "last_modified", "location", "organizer", "priority", "sequence", "status=IN-PROCESS", "summary", "transp=TRANSPARENT", "url", "rrule", "dtend", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { uid: a[0], dtstart: a[1], class: Confidential, created: a[3], description: a[4], geo: a[5], last_modified: a[6], location: a[7], organizer: a[8], priority: num::<u8>(a[9]), sequence: num::<u32>(a[10]), status: InProcess, summary: a[12], transp: Transparent, url: a[14], rrule: a[15], dtend: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Event, label: "all but uid", fields: &["dtstamp", "dtstart", "class=CONFIDENTIAL", "created", "description", "geo", "last_modified", "location", "organizer", "priority", "sequence", "status=IN-PROCESS", "summary", "transp=TRANSPARENT", "url", "rrule", "dtend", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], dtstart: a[1], class: Confidential, created: a[3], description: a[4], geo: a[5], last_modified: a[6], location: a[7], organizer: a[8], priority: num::<u8>(a[9]), sequence: num::<u32>(a[10]), status: InProcess, summary: a[12], transp: Transparent, url: a[14], rrule: a[15], dtend: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Event, label: "all but dtstart", fields: &["dtstamp", "uid", "class=CONFIDENTIAL", "created", "description", "geo", "last_modified", "location", "organizer", "priority", "sequence", "status=IN-PROCESS", "summary", "transp=TRANSPARENT", "url", "rrule", "dtend", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], class: Confidential, created: a[3], description: a[4], geo: a[5], last_modified: a[6], location: a[7], organizer: a[8], priority: num::<u8>(a[9]), sequence: num::<u32>(a[10]), status: InProcess, summary: a[12], transp: Transparent, url: a[14], rrule: a[15], dtend: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Event, label: "all but class", fields: &["dtstamp", "uid", "dtstart", "created", "description", "geo", "last_modified", "location", "organizer", "priority", "sequence", "status=IN-PROCESS", "summary", "transp=TRANSPARENT", "url", "rrule", "dtend", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], created: a[3], description: a[4], geo: a[5], last_modified: a[6], location: a[7], organizer: a[8], priority: num::<u8>(a[9]), sequence: num::<u32>(a[10]), status: InProcess, summary: a[12], transp: Transparent, url: a[14], rrule: a[15], dtend: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Event, label: "all but created", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "description", "geo", "last_modified", "location", "organizer", "priority", "sequence", "status=IN-PROCESS", "summary", "transp=TRANSPARENT", "url", "rrule", "dtend", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, description: a[4], geo: a[5], last_modified: a[6], location: a[7], organizer: a[8], priority: num::<u8>(a[9]), sequence: num::<u32>(a[10]), status: InProcess, summary: a[12], transp: Transparent, url: a[14], rrule: a[15], dtend: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Event, label: "all but description", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "geo", "last_modified", "location", "organizer", "priority", "sequence", "status=IN-PROCESS", "summary", "transp=TRANSPARENT", "url", "rrule", "dtend", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], geo: a[5], last_modified: a[6], location: a[7], organizer: a[8], priority: num::<u8>(a[9]), sequence: num::<u32>(a[10]), status: InProcess, summary: a[12], transp: Transparent, url: a[14], rrule: a[15], dtend: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Event, label: "all but geo", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "description", "last_modified", "location", "organizer", "priority", "sequence", "status=IN-PROCESS", "summary", "transp=TRANSPARENT", "url", "rrule", "dtend", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], description: a[5], last_modified: a[6], location: a[7], organizer: a[8], priority: num::<u8>(a[9]), sequence: num::<u32>(a[10]), status: InProcess, summary: a[12], transp: Transparent, url: a[14], rrule: a[15], dtend: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Event, label: "all but last_modified", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "description", "geo", "location", "organizer", "priority", "sequence", "status=IN-PROCESS", "summary", "transp=TRANSPARENT", "url", "rrule", "dtend", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], description: a[5], geo: a[6], location: a[7], organizer: a[8], priority: num::<u8>(a[9]), sequence: num::<u32>(a[10]), status: InProcess, summary: a[12], transp: Transparent, url: a[14], rrule: a[15], dtend: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Event, label: "all but location", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "description", "geo", "last_modified", "organizer", "priority", "sequence", "status=IN-PROCESS", "summary", "transp=TRANSPARENT", "url", "rrule", "dtend", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], description: a[5], geo: a[6], last_modified: a[7], organizer: a[8], priority: num::<u8>(a[9]), sequence: num::<u32>(a[10]), status: InProcess, summary: a[12], transp: Transparent, url: a[14], rrule: a[15], dtend: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Event, label: "all but organizer", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "description", "geo", "last_modified", "location", "priority", "sequence", "status=IN-PROCESS", "summary", "transp=TRANSPARENT", "url", "rrule", "dtend", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], description: a[5], geo: a[6], last_modified: a[7], location: a[8], priority: num::<u8>(a[9]), sequence: num::<u32>(a[10]), status: InProcess, summary: a[12], transp: Transparent, url: a[14], rrule: a[15], dtend: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Event, label: "all but priority", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "description", "geo", "last_modified", "location", "organizer", "sequence", "status=IN-PROCESS", "summary", "transp=TRANSPARENT", "url", "rrule", "dtend", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], description: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], sequence: num::<u32>(a[10]), status: InProcess, summary: a[12], transp: Transparent, url: a[14], rrule: a[15], dtend: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Event, label: "all but sequence", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "description", "geo", "last_modified", "location", "organizer", "priority", "status=IN-PROCESS", "summary", "transp=TRANSPARENT", "url", "rrule", "dtend", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], description: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], priority: num::<u8>(a[10]), status: InProcess, summary: a[12], transp: Transparent, url: a[14], rrule: a[15], dtend: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Event, label: "all but status", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "description", "geo", "last_modified", "location", "organizer", "priority", "sequence", "summary", "transp=TRANSPARENT", "url", "rrule", "dtend", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], description: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], priority: num::<u8>(a[10]), sequence: num::<u32>(a[11]), summary: a[12], transp: Transparent, url: a[14], rrule: a[15], dtend: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Event, label: "all but summary", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "description", "geo", "last_modified", "location", "organizer", "priority", "sequence", "status=IN-PROCESS", "transp=TRANSPARENT", "url", "rrule", "dtend", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], description: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], priority: num::<u8>(a[10]), sequence: num::<u32>(a[11]), status: InProcess, transp: Transparent, url: a[14], rrule: a[15], dtend: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Event, label: "all but transp", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "description", "geo", "last_modified", "location", "organizer", "priority", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "dtend", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], description: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], priority: num::<u8>(a[10]), sequence: num::<u32>(a[11]), status: InProcess, summary: a[13], url: a[14], rrule: a[15], dtend: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Event, label: "all but url", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "description", "geo", "last_modified", "location", "organizer", "priority", "sequence", "status=IN-PROCESS", "summary", "transp=TRANSPARENT", "rrule", "dtend", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], description: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], priority: num::<u8>(a[10]), sequence: num::<u32>(a[11]), status: InProcess, summary: a[13], transp: Transparent, rrule: a[15], dtend: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Event, label: "all but rrule", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "description", "geo", "last_modified", "location", "organizer", "priority", "sequence", "status=IN-PROCESS", "summary", "transp=TRANSPARENT", "url", "dtend", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], description: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], priority: num::<u8>(a[10]), sequence: num::<u32>(a[11]), status: InProcess, summary: a[13], transp: Transparent, url: a[15], dtend: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Event, label: "all but dtend", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "description", "geo", "last_modified", "location", "organizer", "priority", "sequence", "status=IN-PROCESS", "summary", "transp=TRANSPARENT", "url", "rrule", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], description: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], priority: num::<u8>(a[10]), sequence: num::<u32>(a[11]), status: InProcess, summary: a[13], transp: Transparent, url: a[15], rrule: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Event, label: "all but duration", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "description", "geo", "last_modified", "location", "organizer", "priority", "sequence", "status=IN-PROCESS", "summary", "transp=TRANSPARENT", "url", "rrule", "dtend", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], description: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], priority: num::<u8>(a[10]), sequence: num::<u32>(a[11]), status: InProcess, summary: a[13], transp: Transparent, url: a[15], rrule: a[16], dtend: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Event, label: "all but attach", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "description", "geo", "last_modified", "location", "organizer", "priority", "sequence", "status=IN-PROCESS", "summary", "transp=TRANSPARENT", "url", "rrule", "dtend", "duration", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], description: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], priority: num::<u8>(a[10]), sequence: num::<u32>(a[11]), status: InProcess, summary: a[13], transp: Transparent, url: a[15], rrule: a[16], dtend: a[17], duration: a[18], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Event, label: "all but attendee", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "description", "geo", "last_modified", "location", "organizer", "priority", "sequence", "status=IN-PROCESS", "summary", "transp=TRANSPARENT", "url", "rrule", "dtend", "duration", "attach", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], description: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], priority: num::<u8>(a[10]), sequence: num::<u32>(a[11]), status: InProcess, summary: a[13], transp: Transparent, url: a[15], rrule: a[16], dtend: a[17], duration: a[18], attach: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Event, label: "all but categories", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "description", "geo", "last_modified", "location", "organizer", "priority", "sequence", "status=IN-PROCESS", "summary", "transp=TRANSPARENT", "url", "rrule", "dtend", "duration", "attach", "attendee", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], description: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], priority: num::<u8>(a[10]), sequence: num::<u32>(a[11]), status: InProcess, summary: a[13], transp: Transparent, url: a[15], rrule: a[16], dtend: a[17], duration: a[18], attach: [a[19]], attendee: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Event, label: "all but comment", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "description", "geo", "last_modified", "location", "organizer", "priority", "sequence", "status=IN-PROCESS", "summary", "transp=TRANSPARENT", "url", "rrule", "dtend", "duration", "attach", "attendee", "categories", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], description: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], priority: num::<u8>(a[10]), sequence: num::<u32>(a[11]), status: InProcess, summary: a[13], transp: Transparent, url: a[15], rrule: a[16], dtend: a[17], duration: a[18], attach: [a[19]], attendee: [a[20]], categories: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Event, label: "all but contact", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "description", "geo", "last_modified", "location", "organizer", "priority", "sequence", "status=IN-PROCESS", "summary", "transp=TRANSPARENT", "url", "rrule", "dtend", "duration", "attach", "attendee", "categories", "comment", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], description: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], priority: num::<u8>(a[10]), sequence: num::<u32>(a[11]), status: InProcess, summary: a[13], transp: Transparent, url: a[15], rrule: a[16], dtend: a[17], duration: a[18], attach: [a[19]], attendee: [a[20]], categories: [a[21]], comment: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Event, label: "all but exdate", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "description", "geo", "last_modified", "location", "organizer", "priority", "sequence", "status=IN-PROCESS", "summary", "transp=TRANSPARENT", "url", "rrule", "dtend", "duration", "attach", "attendee", "categories", "comment", "contact", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], description: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], priority: num::<u8>(a[10]), sequence: num::<u32>(a[11]), status: InProcess, summary: a[13], transp: Transparent, url: a[15], rrule: a[16], dtend: a[17], duration: a[18], attach: [a[19]], attendee: [a[20]], categories: [a[21]], comment: [a[22]], contact: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Event, label: "all but rstatus", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "description", "geo", "last_modified", "location", "organizer", "priority", "sequence", "status=IN-PROCESS", "summary", "transp=TRANSPARENT", "url", "rrule", "dtend", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "related_to", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], description: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], priority: num::<u8>(a[10]), sequence: num::<u32>(a[11]), status: InProcess, summary: a[13], transp: Transparent, url: a[15], rrule: a[16], dtend: a[17], duration: a[18], attach: [a[19]], attendee: [a[20]], categories: [a[21]], comment: [a[22]], contact: [a[23]], exdate: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Event, label: "all but related_to", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "description", "geo", "last_modified", "location", "organizer", "priority", "sequence", "status=IN-PROCESS", "summary", "transp=TRANSPARENT", "url", "rrule", "dtend", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], description: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], priority: num::<u8>(a[10]), sequence: num::<u32>(a[11]), status: InProcess, summary: a[13], transp: Transparent, url: a[15], rrule: a[16], dtend: a[17], duration: a[18], attach: [a[19]], attendee: [a[20]], categories: [a[21]], comment: [a[22]], contact: [a[23]], exdate: [a[24]], rstatus: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Event, label: "all but resources", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "description", "geo", "last_modified", "location", "organizer", "priority", "sequence", "status=IN-PROCESS", "summary", "transp=TRANSPARENT", "url", "rrule", "dtend", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], description: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], priority: num::<u8>(a[10]), sequence: num::<u32>(a[11]), status: InProcess, summary: a[13], transp: Transparent, url: a[15], rrule: a[16], dtend: a[17], duration: a[18], attach: [a[19]], attendee: [a[20]], categories: [a[21]], comment: [a[22]], contact: [a[23]], exdate: [a[24]], rstatus: [a[25]], related_to: [a[26]] }?)) },
    Call { kind: Kind::Todo, label: "all", fields: &["dtstamp", "uid", "class=CONFIDENTIAL", "completed", "created", "dtstart", "geo", "last_modified", "location", "organizer", "percent_complete", "priority", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "due", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], class: Confidential, completed: a[3], created: a[4], dtstart: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], percent_complete: num::<u8>(a[10]), priority: num::<u8>(a[11]), sequence: num::<u32>(a[12]), status: InProcess, summary: a[14], url: a[15], rrule: a[16], due: a[17], duration: a[18], attach: [a[19]], attendee: [a[20]], categories: [a[21]], comment: [a[22]], contact: [a[23]], exdate: [a[24]], rstatus: [a[25]], related_to: [a[26]], resources: [a[27]] }?)) },
    Call { kind: Kind::Todo, label: "all reversed", fields: &["resources", "related_to", "rstatus", "exdate", "contact", "comment", "categories", "attendee", "attach", "duration", "due", "rrule", "url", "summary", "status=IN-PROCESS", "sequence", "priority", "percent_complete", "organizer", "location", "last_modified", "geo", "dtstart", "created", "completed", "class=CONFIDENTIAL", "uid", "dtstamp"], f: |a| Ok(Any::Todo(ikal::vtodo! { resources: [a[0]], related_to: [a[1]], rstatus: [a[2]], exdate: [a[3]], contact: [a[4]], comment: [a[5]], categories: [a[6]], attendee: [a[7]], attach: [a[8]], duration: a[9], due: a[10], rrule: a[11], url: a[12], summary: a[13], status: InProcess, sequence: num::<u32>(a[15]), priority: num::<u8>(a[16]), percent_complete: num::<u8>(a[17]), organizer: a[18], location: a[19], last_modified: a[20], geo: a[21], dtstart: a[22], created: a[23], completed: a[24], class: Confidential, uid: a[26], dtstamp: a[27] }?)) },
    Call { kind: Kind::Todo, label: "all but dtstamp", fields: &["uid", "class=CONFIDENTIAL", "completed", "created", "dtstart", "geo", "last_modified", "location", "organizer", "percent_complete", "priority", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "due", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { uid: a[0], class: Confidential, completed: a[2], created: a[3], dtstart: a[4], geo: a[5], last_modified: a[6], location: a[7], organizer: a[8], percent_complete: num::<u8>(a[9]), priority: num::<u8>(a[10]), sequence: num::<u32>(a[11]), status: InProcess, summary: a[13], url: a[14], rrule: a[15], due: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Todo, label: "all but uid", fields: &["dtstamp", "class=CONFIDENTIAL", "completed", "created", "dtstart", "geo", "last_modified", "location", "organizer", "percent_complete", "priority", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "due", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], class: Confidential, completed: a[2], created: a[3], dtstart: a[4], geo: a[5], last_modified: a[6], location: a[7], organizer: a[8], percent_complete: num::<u8>(a[9]), priority: num::<u8>(a[10]), sequence: num::<u32>(a[11]), status: InProcess, summary: a[13], url: a[14], rrule: a[15], due: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Todo, label: "all but class", fields: &["dtstamp", "uid", "completed", "created", "dtstart", "geo", "last_modified", "location", "organizer", "percent_complete", "priority", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "due", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], completed: a[2], created: a[3], dtstart: a[4], geo: a[5], last_modified: a[6], location: a[7], organizer: a[8], percent_complete: num::<u8>(a[9]), priority: num::<u8>(a[10]), sequence: num::<u32>(a[11]), status: InProcess, summary: a[13], url: a[14], rrule: a[15], due: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Todo, label: "all but completed", fields: &["dtstamp", "uid", "class=CONFIDENTIAL", "created", "dtstart", "geo", "last_modified", "location", "organizer", "percent_complete", "priority", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "due", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], class: Confidential, created: a[3], dtstart: a[4], geo: a[5], last_modified: a[6], location: a[7], organizer: a[8], percent_complete: num::<u8>(a[9]), priority: num::<u8>(a[10]), sequence: num::<u32>(a[11]), status: InProcess, summary: a[13], url: a[14], rrule: a[15], due: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Todo, label: "all but created", fields: &["dtstamp", "uid", "class=CONFIDENTIAL", "completed", "dtstart", "geo", "last_modified", "location", "organizer", "percent_complete", "priority", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "due", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], class: Confidential, completed: a[3], dtstart: a[4], geo: a[5], last_modified: a[6], location: a[7], organizer: a[8], percent_complete: num::<u8>(a[9]), priority: num::<u8>(a[10]), sequence: num::<u32>(a[11]), status: InProcess, summary: a[13], url: a[14], rrule: a[15], due: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Todo, label: "all but dtstart", fields: &["dtstamp", "uid", "class=CONFIDENTIAL", "completed", "created", "geo", "last_modified", "location", "organizer", "percent_complete", "priority", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "due", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], class: Confidential, completed: a[3], created: a[4], geo: a[5], last_modified: a[6], location: a[7], organizer: a[8], percent_complete: num::<u8>(a[9]), priority: num::<u8>(a[10]), sequence: num::<u32>(a[11]), status: InProcess, summary: a[13], url: a[14], rrule: a[15], due: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Todo, label: "all but geo", fields: &["dtstamp", "uid", "class=CONFIDENTIAL", "completed", "created", "dtstart", "last_modified", "location", "organizer", "percent_complete", "priority", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "due", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], class: Confidential, completed: a[3], created: a[4], dtstart: a[5], last_modified: a[6], location: a[7], organizer: a[8], percent_complete: num::<u8>(a[9]), priority: num::<u8>(a[10]), sequence: num::<u32>(a[11]), status: InProcess, summary: a[13], url: a[14], rrule: a[15], due: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Todo, label: "all but last_modified", fields: &["dtstamp", "uid", "class=CONFIDENTIAL", "completed", "created", "dtstart", "geo", "location", "organizer", "percent_complete", "priority", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "due", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], class: Confidential, completed: a[3], created: a[4], dtstart: a[5], geo: a[6], location: a[7], organizer: a[8], percent_complete: num::<u8>(a[9]), priority: num::<u8>(a[10]), sequence: num::<u32>(a[11]), status: InProcess, summary: a[13], url: a[14], rrule: a[15], due: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Todo, label: "all but location", fields: &["dtstamp", "uid", "class=CONFIDENTIAL", "completed", "created", "dtstart", "geo", "last_modified", "organizer", "percent_complete", "priority", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "due", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], class: Confidential, completed: a[3], created: a[4], dtstart: a[5], geo: a[6], last_modified: a[7], organizer: a[8], percent_complete: num::<u8>(a[9]), priority: num::<u8>(a[10]), sequence: num::<u32>(a[11]), status: InProcess, summary: a[13], url: a[14], rrule: a[15], due: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Todo, label: "all but organizer", fields: &["dtstamp", "uid", "class=CONFIDENTIAL", "completed", "created", "dtstart", "geo", "last_modified", "location", "percent_complete", "priority", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "due", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], class: Confidential, completed: a[3], created: a[4], dtstart: a[5], geo: a[6], last_modified: a[7], location: a[8], percent_complete: num::<u8>(a[9]), priority: num::<u8>(a[10]), sequence: num::<u32>(a[11]), status: InProcess, summary: a[13], url: a[14], rrule: a[15], due: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Todo, label: "all but percent_complete", fields: &["dtstamp", "uid", "class=CONFIDENTIAL", "completed", "created", "dtstart", "geo", "last_modified", "location", "organizer", "priority", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "due", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], class: Confidential, completed: a[3], created: a[4], dtstart: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], priority: num::<u8>(a[10]), sequence: num::<u32>(a[11]), status: InProcess, summary: a[13], url: a[14], rrule: a[15], due: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Todo, label: "all but priority", fields: &["dtstamp", "uid", "class=CONFIDENTIAL", "completed", "created", "dtstart", "geo", "last_modified", "location", "organizer", "percent_complete", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "due", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], class: Confidential, completed: a[3], created: a[4], dtstart: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], percent_complete: num::<u8>(a[10]), sequence: num::<u32>(a[11]), status: InProcess, summary: a[13], url: a[14], rrule: a[15], due: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Todo, label: "all but sequence", fields: &["dtstamp", "uid", "class=CONFIDENTIAL", "completed", "created", "dtstart", "geo", "last_modified", "location", "organizer", "percent_complete", "priority", "status=IN-PROCESS", "summary", "url", "rrule", "due", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], class: Confidential, completed: a[3], created: a[4], dtstart: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], percent_complete: num::<u8>(a[10]), priority: num::<u8>(a[11]), status: InProcess, summary: a[13], url: a[14], rrule: a[15], due: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Todo, label: "all but status", fields: &["dtstamp", "uid", "class=CONFIDENTIAL", "completed", "created", "dtstart", "geo", "last_modified", "location", "organizer", "percent_complete", "priority", "sequence", "summary", "url", "rrule", "due", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], class: Confidential, completed: a[3], created: a[4], dtstart: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], percent_complete: num::<u8>(a[10]), priority: num::<u8>(a[11]), sequence: num::<u32>(a[12]), summary: a[13], url: a[14], rrule: a[15], due: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Todo, label: "all but summary", fields: &["dtstamp", "uid", "class=CONFIDENTIAL", "completed", "created", "dtstart", "geo", "last_modified", "location", "organizer", "percent_complete", "priority", "sequence", "status=IN-PROCESS", "url", "rrule", "due", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], class: Confidential, completed: a[3], created: a[4], dtstart: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], percent_complete: num::<u8>(a[10]), priority: num::<u8>(a[11]), sequence: num::<u32>(a[12]), status: InProcess, url: a[14], rrule: a[15], due: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Todo, label: "all but url", fields: &["dtstamp", "uid", "class=CONFIDENTIAL", "completed", "created", "dtstart", "geo", "last_modified", "location", "organizer", "percent_complete", "priority", "sequence", "status=IN-PROCESS", "summary", "rrule", "due", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], class: Confidential, completed: a[3], created: a[4], dtstart: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], percent_complete: num::<u8>(a[10]), priority: num::<u8>(a[11]), sequence: num::<u32>(a[12]), status: InProcess, summary: a[14], rrule: a[15], due: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Todo, label: "all but rrule", fields: &["dtstamp", "uid", "class=CONFIDENTIAL", "completed", "created", "dtstart", "geo", "last_modified", "location", "organizer", "percent_complete", "priority", "sequence", "status=IN-PROCESS", "summary", "url", "due", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], class: Confidential, completed: a[3], created: a[4], dtstart: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], percent_complete: num::<u8>(a[10]), priority: num::<u8>(a[11]), sequence: num::<u32>(a[12]), status: InProcess, summary: a[14], url: a[15], due: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Todo, label: "all but due", fields: &["dtstamp", "uid", "class=CONFIDENTIAL", "completed", "created", "dtstart", "geo", "last_modified", "location", "organizer", "percent_complete", "priority", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], class: Confidential, completed: a[3], created: a[4], dtstart: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], percent_complete: num::<u8>(a[10]), priority: num::<u8>(a[11]), sequence: num::<u32>(a[12]), status: InProcess, summary: a[14], url: a[15], rrule: a[16], duration: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Todo, label: "all but duration", fields: &["dtstamp", "uid", "class=CONFIDENTIAL", "completed", "created", "dtstart", "geo", "last_modified", "location", "organizer", "percent_complete", "priority", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "due", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], class: Confidential, completed: a[3], created: a[4], dtstart: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], percent_complete: num::<u8>(a[10]), priority: num::<u8>(a[11]), sequence: num::<u32>(a[12]), status: InProcess, summary: a[14], url: a[15], rrule: a[16], due: a[17], attach: [a[18]], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Todo, label: "all but attach", fields: &["dtstamp", "uid", "class=CONFIDENTIAL", "completed", "created", "dtstart", "geo", "last_modified", "location", "organizer", "percent_complete", "priority", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "due", "duration", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], class: Confidential, completed: a[3], created: a[4], dtstart: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], percent_complete: num::<u8>(a[10]), priority: num::<u8>(a[11]), sequence: num::<u32>(a[12]), status: InProcess, summary: a[14], url: a[15], rrule: a[16], due: a[17], duration: a[18], attendee: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Todo, label: "all but attendee", fields: &["dtstamp", "uid", "class=CONFIDENTIAL", "completed", "created", "dtstart", "geo", "last_modified", "location", "organizer", "percent_complete", "priority", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "due", "duration", "attach", "categories", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], class: Confidential, completed: a[3], created: a[4], dtstart: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], percent_complete: num::<u8>(a[10]), priority: num::<u8>(a[11]), sequence: num::<u32>(a[12]), status: InProcess, summary: a[14], url: a[15], rrule: a[16], due: a[17], duration: a[18], attach: [a[19]], categories: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Todo, label: "all but categories", fields: &["dtstamp", "uid", "class=CONFIDENTIAL", "completed", "created", "dtstart", "geo", "last_modified", "location", "organizer", "percent_complete", "priority", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "due", "duration", "attach", "attendee", "comment", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], class: Confidential, completed: a[3], created: a[4], dtstart: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], percent_complete: num::<u8>(a[10]), priority: num::<u8>(a[11]), sequence: num::<u32>(a[12]), status: InProcess, summary: a[14], url: a[15], rrule: a[16], due: a[17], duration: a[18], attach: [a[19]], attendee: [a[20]], comment: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Todo, label: "all but comment", fields: &["dtstamp", "uid", "class=CONFIDENTIAL", "completed", "created", "dtstart", "geo", "last_modified", "location", "organizer", "percent_complete", "priority", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "due", "duration", "attach", "attendee", "categories", "contact", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], class: Confidential, completed: a[3], created: a[4], dtstart: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], percent_complete: num::<u8>(a[10]), priority: num::<u8>(a[11]), sequence: num::<u32>(a[12]), status: InProcess, summary: a[14], url: a[15], rrule: a[16], due: a[17], duration: a[18], attach: [a[19]], attendee: [a[20]], categories: [a[21]], contact: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Todo, label: "all but contact", fields: &["dtstamp", "uid", "class=CONFIDENTIAL", "completed", "created", "dtstart", "geo", "last_modified", "location", "organizer", "percent_complete", "priority", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "due", "duration", "attach", "attendee", "categories", "comment", "exdate", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], class: Confidential, completed: a[3], created: a[4], dtstart: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], percent_complete: num::<u8>(a[10]), priority: num::<u8>(a[11]), sequence: num::<u32>(a[12]), status: InProcess, summary: a[14], url: a[15], rrule: a[16], due: a[17], duration: a[18], attach: [a[19]], attendee: [a[20]], categories: [a[21]], comment: [a[22]], exdate: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Todo, label: "all but exdate", fields: &["dtstamp", "uid", "class=CONFIDENTIAL", "completed", "created", "dtstart", "geo", "last_modified", "location", "organizer", "percent_complete", "priority", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "due", "duration", "attach", "attendee", "categories", "comment", "contact", "rstatus", "related_to", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], class: Confidential, completed: a[3], created: a[4], dtstart: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], percent_complete: num::<u8>(a[10]), priority: num::<u8>(a[11]), sequence: num::<u32>(a[12]), status: InProcess, summary: a[14], url: a[15], rrule: a[16], due: a[17], duration: a[18], attach: [a[19]], attendee: [a[20]], categories: [a[21]], comment: [a[22]], contact: [a[23]], rstatus: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Todo, label: "all but rstatus", fields: &["dtstamp", "uid", "class=CONFIDENTIAL", "completed", "created", "dtstart", "geo", "last_modified", "location", "organizer", "percent_complete", "priority", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "due", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "related_to", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], class: Confidential, completed: a[3], created: a[4], dtstart: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], percent_complete: num::<u8>(a[10]), priority: num::<u8>(a[11]), sequence: num::<u32>(a[12]), status: InProcess, summary: a[14], url: a[15], rrule: a[16], due: a[17], duration: a[18], attach: [a[19]], attendee: [a[20]], categories: [a[21]], comment: [a[22]], contact: [a[23]], exdate: [a[24]], related_to: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Todo, label: "all but related_to", fields: &["dtstamp", "uid", "class=CONFIDENTIAL", "completed", "created", "dtstart", "geo", "last_modified", "location", "organizer", "percent_complete", "priority", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "due", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], class: Confidential, completed: a[3], created: a[4], dtstart: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], percent_complete: num::<u8>(a[10]), priority: num::<u8>(a[11]), sequence: num::<u32>(a[12]), status: InProcess, summary: a[14], url: a[15], rrule: a[16], due: a[17], duration: a[18], attach: [a[19]], attendee: [a[20]], categories: [a[21]], comment: [a[22]], contact: [a[23]], exdate: [a[24]], rstatus: [a[25]], resources: [a[26]] }?)) },
    Call { kind: Kind::Todo, label: "all but resources", fields: &["dtstamp", "uid", "class=CONFIDENTIAL", "completed", "created", "dtstart", "geo", "last_modified", "location", "organizer", "percent_complete", "priority", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "due", "duration", "attach", "attendee", "categories", "comment", "contact", "exdate", "rstatus", "related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], class: Confidential, completed: a[3], created: a[4], dtstart: a[5], geo: a[6], last_modified: a[7], location: a[8], organizer: a[9], percent_complete: num::<u8>(a[10]), priority: num::<u8>(a[11]), sequence: num::<u32>(a[12]), status: InProcess, summary: a[14], url: a[15], rrule: a[16], due: a[17], duration: a[18], attach: [a[19]], attendee: [a[20]], categories: [a[21]], comment: [a[22]], contact: [a[23]], exdate: [a[24]], rstatus: [a[25]], related_to: [a[26]] }?)) },
    Call { kind: Kind::Journal, label: "all", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "last_modified", "organizer", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "attach", "attendee", "categories", "comment", "contact", "description", "exdate", "related_to", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], last_modified: a[5], organizer: a[6], sequence: num::<u32>(a[7]), status: InProcess, summary: a[9], url: a[10], rrule: a[11], attach: [a[12]], attendee: [a[13]], categories: [a[14]], comment: [a[15]], contact: [a[16]], description: [a[17]], exdate: [a[18]], related_to: [a[19]], rstatus: [a[20]] }?)) },
    Call { kind: Kind::Journal, label: "all reversed", fields: &["rstatus", "related_to", "exdate", "description", "contact", "comment", "categories", "attendee", "attach", "rrule", "url", "summary", "status=IN-PROCESS", "sequence", "organizer", "last_modified", "created", "class=CONFIDENTIAL", "dtstart", "uid", "dtstamp"], f: |a| Ok(Any::Journal(ikal::vjournal! { rstatus: [a[0]], related_to: [a[1]], exdate: [a[2]], description: [a[3]], contact: [a[4]], comment: [a[5]], categories: [a[6]], attendee: [a[7]], attach: [a[8]], rrule: a[9], url: a[10], summary: a[11], status: InProcess, sequence: num::<u32>(a[13]), organizer: a[14], last_modified: a[15], created: a[16], class: Confidential, dtstart: a[18], uid: a[19], dtstamp: a[20] }?)) },
    Call { kind: Kind::Journal, label: "all but dtstamp", fields: &["uid", "dtstart", "class=CONFIDENTIAL", "created", "last_modified", "organizer", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "attach", "attendee", "categories", "comment", "contact", "description", "exdate", "related_to", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { uid: a[0], dtstart: a[1], class: Confidential, created: a[3], last_modified: a[4], organizer: a[5], sequence: num::<u32>(a[6]), status: InProcess, summary: a[8], url: a[9], rrule: a[10], attach: [a[11]], attendee: [a[12]], categories: [a[13]], comment: [a[14]], contact: [a[15]], description: [a[16]], exdate: [a[17]], related_to: [a[18]], rstatus: [a[19]] }?)) },
    Call { kind: Kind::Journal, label: "all but uid", fields: &["dtstamp", "dtstart", "class=CONFIDENTIAL", "created", "last_modified", "organizer", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "attach", "attendee", "categories", "comment", "contact", "description", "exdate", "related_to", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], dtstart: a[1], class: Confidential, created: a[3], last_modified: a[4], organizer: a[5], sequence: num::<u32>(a[6]), status: InProcess, summary: a[8], url: a[9], rrule: a[10], attach: [a[11]], attendee: [a[12]], categories: [a[13]], comment: [a[14]], contact: [a[15]], description: [a[16]], exdate: [a[17]], related_to: [a[18]], rstatus: [a[19]] }?)) },
    Call { kind: Kind::Journal, label: "all but dtstart", fields: &["dtstamp", "uid", "class=CONFIDENTIAL", "created", "last_modified", "organizer", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "attach", "attendee", "categories", "comment", "contact", "description", "exdate", "related_to", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], class: Confidential, created: a[3], last_modified: a[4], organizer: a[5], sequence: num::<u32>(a[6]), status: InProcess, summary: a[8], url: a[9], rrule: a[10], attach: [a[11]], attendee: [a[12]], categories: [a[13]], comment: [a[14]], contact: [a[15]], description: [a[16]], exdate: [a[17]], related_to: [a[18]], rstatus: [a[19]] }?)) },
    Call { kind: Kind::Journal, label: "all but class", fields: &["dtstamp", "uid", "dtstart", "created", "last_modified", "organizer", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "attach", "attendee", "categories", "comment", "contact", "description", "exdate", "related_to", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], created: a[3], last_modified: a[4], organizer: a[5], sequence: num::<u32>(a[6]), status: InProcess, summary: a[8], url: a[9], rrule: a[10], attach: [a[11]], attendee: [a[12]], categories: [a[13]], comment: [a[14]], contact: [a[15]], description: [a[16]], exdate: [a[17]], related_to: [a[18]], rstatus: [a[19]] }?)) },
    Call { kind: Kind::Journal, label: "all but created", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "last_modified", "organizer", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "attach", "attendee", "categories", "comment", "contact", "description", "exdate", "related_to", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, last_modified: a[4], organizer: a[5], sequence: num::<u32>(a[6]), status: InProcess, summary: a[8], url: a[9], rrule: a[10], attach: [a[11]], attendee: [a[12]], categories: [a[13]], comment: [a[14]], contact: [a[15]], description: [a[16]], exdate: [a[17]], related_to: [a[18]], rstatus: [a[19]] }?)) },
    Call { kind: Kind::Journal, label: "all but last_modified", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "organizer", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "attach", "attendee", "categories", "comment", "contact", "description", "exdate", "related_to", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], organizer: a[5], sequence: num::<u32>(a[6]), status: InProcess, summary: a[8], url: a[9], rrule: a[10], attach: [a[11]], attendee: [a[12]], categories: [a[13]], comment: [a[14]], contact: [a[15]], description: [a[16]], exdate: [a[17]], related_to: [a[18]], rstatus: [a[19]] }?)) },
    Call { kind: Kind::Journal, label: "all but organizer", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "last_modified", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "attach", "attendee", "categories", "comment", "contact", "description", "exdate", "related_to", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], last_modified: a[5], sequence: num::<u32>(a[6]), status: InProcess, summary: a[8], url: a[9], rrule: a[10], attach: [a[11]], attendee: [a[12]], categories: [a[13]], comment: [a[14]], contact: [a[15]], description: [a[16]], exdate: [a[17]], related_to: [a[18]], rstatus: [a[19]] }?)) },
    Call { kind: Kind::Journal, label: "all but sequence", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "last_modified", "organizer", "status=IN-PROCESS", "summary", "url", "rrule", "attach", "attendee", "categories", "comment", "contact", "description", "exdate", "related_to", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], last_modified: a[5], organizer: a[6], status: InProcess, summary: a[8], url: a[9], rrule: a[10], attach: [a[11]], attendee: [a[12]], categories: [a[13]], comment: [a[14]], contact: [a[15]], description: [a[16]], exdate: [a[17]], related_to: [a[18]], rstatus: [a[19]] }?)) },
    Call { kind: Kind::Journal, label: "all but status", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "last_modified", "organizer", "sequence", "summary", "url", "rrule", "attach", "attendee", "categories", "comment", "contact", "description", "exdate", "related_to", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], last_modified: a[5], organizer: a[6], sequence: num::<u32>(a[7]), summary: a[8], url: a[9], rrule: a[10], attach: [a[11]], attendee: [a[12]], categories: [a[13]], comment: [a[14]], contact: [a[15]], description: [a[16]], exdate: [a[17]], related_to: [a[18]], rstatus: [a[19]] }?)) },
    Call { kind: Kind::Journal, label: "all but summary", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "last_modified", "organizer", "sequence", "status=IN-PROCESS", "url", "rrule", "attach", "attendee", "categories", "comment", "contact", "description", "exdate", "related_to", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], last_modified: a[5], organizer: a[6], sequence: num::<u32>(a[7]), status: InProcess, url: a[9], rrule: a[10], attach: [a[11]], attendee: [a[12]], categories: [a[13]], comment: [a[14]], contact: [a[15]], description: [a[16]], exdate: [a[17]], related_to: [a[18]], rstatus: [a[19]] }?)) },
    Call { kind: Kind::Journal, label: "all but url", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "last_modified", "organizer", "sequence", "status=IN-PROCESS", "summary", "rrule", "attach", "attendee", "categories", "comment", "contact", "description", "exdate", "related_to", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], last_modified: a[5], organizer: a[6], sequence: num::<u32>(a[7]), status: InProcess, summary: a[9], rrule: a[10], attach: [a[11]], attendee: [a[12]], categories: [a[13]], comment: [a[14]], contact: [a[15]], description: [a[16]], exdate: [a[17]], related_to: [a[18]], rstatus: [a[19]] }?)) },
    Call { kind: Kind::Journal, label: "all but rrule", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "last_modified", "organizer", "sequence", "status=IN-PROCESS", "summary", "url", "attach", "attendee", "categories", "comment", "contact", "description", "exdate", "related_to", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], last_modified: a[5], organizer: a[6], sequence: num::<u32>(a[7]), status: InProcess, summary: a[9], url: a[10], attach: [a[11]], attendee: [a[12]], categories: [a[13]], comment: [a[14]], contact: [a[15]], description: [a[16]], exdate: [a[17]], related_to: [a[18]], rstatus: [a[19]] }?)) },
    Call { kind: Kind::Journal, label: "all but attach", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "last_modified", "organizer", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "attendee", "categories", "comment", "contact", "description", "exdate", "related_to", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], last_modified: a[5], organizer: a[6], sequence: num::<u32>(a[7]), status: InProcess, summary: a[9], url: a[10], rrule: a[11], attendee: [a[12]], categories: [a[13]], comment: [a[14]], contact: [a[15]], description: [a[16]], exdate: [a[17]], related_to: [a[18]], rstatus: [a[19]] }?)) },
    Call { kind: Kind::Journal, label: "all but attendee", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "last_modified", "organizer", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "attach", "categories", "comment", "contact", "description", "exdate", "related_to", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], last_modified: a[5], organizer: a[6], sequence: num::<u32>(a[7]), status: InProcess, summary: a[9], url: a[10], rrule: a[11], attach: [a[12]], categories: [a[13]], comment: [a[14]], contact: [a[15]], description: [a[16]], exdate: [a[17]], related_to: [a[18]], rstatus: [a[19]] }?)) },
    Call { kind: Kind::Journal, label: "all but categories", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "last_modified", "organizer", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "attach", "attendee", "comment", "contact", "description", "exdate", "related_to", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], last_modified: a[5], organizer: a[6], sequence: num::<u32>(a[7]), status: InProcess, summary: a[9], url: a[10], rrule: a[11], attach: [a[12]], attendee: [a[13]], comment: [a[14]], contact: [a[15]], description: [a[16]], exdate: [a[17]], related_to: [a[18]], rstatus: [a[19]] }?)) },
    Call { kind: Kind::Journal, label: "all but comment", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "last_modified", "organizer", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "attach", "attendee", "categories", "contact", "description", "exdate", "related_to", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], last_modified: a[5], organizer: a[6], sequence: num::<u32>(a[7]), status: InProcess, summary: a[9], url: a[10], rrule: a[11], attach: [a[12]], attendee: [a[13]], categories: [a[14]], contact: [a[15]], description: [a[16]], exdate: [a[17]], related_to: [a[18]], rstatus: [a[19]] }?)) },
    Call { kind: Kind::Journal, label: "all but contact", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "last_modified", "organizer", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "attach", "attendee", "categories", "comment", "description", "exdate", "related_to", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], last_modified: a[5], organizer: a[6], sequence: num::<u32>(a[7]), status: InProcess, summary: a[9], url: a[10], rrule: a[11], attach: [a[12]], attendee: [a[13]], categories: [a[14]], comment: [a[15]], description: [a[16]], exdate: [a[17]], related_to: [a[18]], rstatus: [a[19]] }?)) },
    Call { kind: Kind::Journal, label: "all but description", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "last_modified", "organizer", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "attach", "attendee", "categories", "comment", "contact", "exdate", "related_to", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], last_modified: a[5], organizer: a[6], sequence: num::<u32>(a[7]), status: InProcess, summary: a[9], url: a[10], rrule: a[11], attach: [a[12]], attendee: [a[13]], categories: [a[14]], comment: [a[15]], contact: [a[16]], exdate: [a[17]], related_to: [a[18]], rstatus: [a[19]] }?)) },
    Call { kind: Kind::Journal, label: "all but exdate", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "last_modified", "organizer", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "attach", "attendee", "categories", "comment", "contact", "description", "related_to", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], last_modified: a[5], organizer: a[6], sequence: num::<u32>(a[7]), status: InProcess, summary: a[9], url: a[10], rrule: a[11], attach: [a[12]], attendee: [a[13]], categories: [a[14]], comment: [a[15]], contact: [a[16]], description: [a[17]], related_to: [a[18]], rstatus: [a[19]] }?)) },
    Call { kind: Kind::Journal, label: "all but related_to", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "last_modified", "organizer", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "attach", "attendee", "categories", "comment", "contact", "description", "exdate", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], last_modified: a[5], organizer: a[6], sequence: num::<u32>(a[7]), status: InProcess, summary: a[9], url: a[10], rrule: a[11], attach: [a[12]], attendee: [a[13]], categories: [a[14]], comment: [a[15]], contact: [a[16]], description: [a[17]], exdate: [a[18]], rstatus: [a[19]] }?)) },
    Call { kind: Kind::Journal, label: "all but rstatus", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL", "created", "last_modified", "organizer", "sequence", "status=IN-PROCESS", "summary", "url", "rrule", "attach", "attendee", "categories", "comment", "contact", "description", "exdate", "related_to"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential, created: a[4], last_modified: a[5], organizer: a[6], sequence: num::<u32>(a[7]), status: InProcess, summary: a[9], url: a[10], rrule: a[11], attach: [a[12]], attendee: [a[13]], categories: [a[14]], comment: [a[15]], contact: [a[16]], description: [a[17]], exdate: [a[18]], related_to: [a[19]] }?)) },
    Call { kind: Kind::Freebusy, label: "all", fields: &["dtstamp", "uid", "contact", "dtstart", "dtend", "organizer", "url", "attendee", "comment", "freebusy", "rstatus"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], uid: a[1], contact: a[2], dtstart: a[3], dtend: a[4], organizer: a[5], url: a[6], attendee: [a[7]], comment: [a[8]], freebusy: [a[9]], rstatus: [a[10]] }?)) },
    Call { kind: Kind::Freebusy, label: "all reversed", fields: &["rstatus", "freebusy", "comment", "attendee", "url", "organizer", "dtend", "dtstart", "contact", "uid", "dtstamp"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { rstatus: [a[0]], freebusy: [a[1]], comment: [a[2]], attendee: [a[3]], url: a[4], organizer: a[5], dtend: a[6], dtstart: a[7], contact: a[8], uid: a[9], dtstamp: a[10] }?)) },
    Call { kind: Kind::Freebusy, label: "all but dtstamp", fields: &["uid", "contact", "dtstart", "dtend", "organizer", "url", "attendee", "comment", "freebusy", "rstatus"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { uid: a[0], contact: a[1], dtstart: a[2], dtend: a[3], organizer: a[4], url: a[5], attendee: [a[6]], comment: [a[7]], freebusy: [a[8]], rstatus: [a[9]] }?)) },
    Call { kind: Kind::Freebusy, label: "all but uid", fields: &["dtstamp", "contact", "dtstart", "dtend", "organizer", "url", "attendee", "comment", "freebusy", "rstatus"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], contact: a[1], dtstart: a[2], dtend: a[3], organizer: a[4], url: a[5], attendee: [a[6]], comment: [a[7]], freebusy: [a[8]], rstatus: [a[9]] }?)) },
    Call { kind: Kind::Freebusy, label: "all but contact", fields: &["dtstamp", "uid", "dtstart", "dtend", "organizer", "url", "attendee", "comment", "freebusy", "rstatus"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], uid: a[1], dtstart: a[2], dtend: a[3], organizer: a[4], url: a[5], attendee: [a[6]], comment: [a[7]], freebusy: [a[8]], rstatus: [a[9]] }?)) },
    Call { kind: Kind::Freebusy, label: "all but dtstart", fields: &["dtstamp", "uid", "contact", "dtend", "organizer", "url", "attendee", "comment", "freebusy", "rstatus"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], uid: a[1], contact: a[2], dtend: a[3], organizer: a[4], url: a[5], attendee: [a[6]], comment: [a[7]], freebusy: [a[8]], rstatus: [a[9]] }?)) },
    Call { kind: Kind::Freebusy, label: "all but dtend", fields: &["dtstamp", "uid", "contact", "dtstart", "organizer", "url", "attendee", "comment", "freebusy", "rstatus"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], uid: a[1], contact: a[2], dtstart: a[3], organizer: a[4], url: a[5], attendee: [a[6]], comment: [a[7]], freebusy: [a[8]], rstatus: [a[9]] }?)) },
    Call { kind: Kind::Freebusy, label: "all but organizer", fields: &["dtstamp", "uid", "contact", "dtstart", "dtend", "url", "attendee", "comment", "freebusy", "rstatus"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], uid: a[1], contact: a[2], dtstart: a[3], dtend: a[4], url: a[5], attendee: [a[6]], comment: [a[7]], freebusy: [a[8]], rstatus: [a[9]] }?)) },
    Call { kind: Kind::Freebusy, label: "all but url", fields: &["dtstamp", "uid", "contact", "dtstart", "dtend", "organizer", "attendee", "comment", "freebusy", "rstatus"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], uid: a[1], contact: a[2], dtstart: a[3], dtend: a[4], organizer: a[5], attendee: [a[6]], comment: [a[7]], freebusy: [a[8]], rstatus: [a[9]] }?)) },
    Call { kind: Kind::Freebusy, label: "all but attendee", fields: &["dtstamp", "uid", "contact", "dtstart", "dtend", "organizer", "url", "comment", "freebusy", "rstatus"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], uid: a[1], contact: a[2], dtstart: a[3], dtend: a[4], organizer: a[5], url: a[6], comment: [a[7]], freebusy: [a[8]], rstatus: [a[9]] }?)) },
    Call { kind: Kind::Freebusy, label: "all but comment", fields: &["dtstamp", "uid", "contact", "dtstart", "dtend", "organizer", "url", "attendee", "freebusy", "rstatus"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], uid: a[1], contact: a[2], dtstart: a[3], dtend: a[4], organizer: a[5], url: a[6], attendee: [a[7]], freebusy: [a[8]], rstatus: [a[9]] }?)) },
    Call { kind: Kind::Freebusy, label: "all but freebusy", fields: &["dtstamp", "uid", "contact", "dtstart", "dtend", "organizer", "url", "attendee", "comment", "rstatus"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], uid: a[1], contact: a[2], dtstart: a[3], dtend: a[4], organizer: a[5], url: a[6], attendee: [a[7]], comment: [a[8]], rstatus: [a[9]] }?)) },
    Call { kind: Kind::Freebusy, label: "all but rstatus", fields: &["dtstamp", "uid", "contact", "dtstart", "dtend", "organizer", "url", "attendee", "comment", "freebusy"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], uid: a[1], contact: a[2], dtstart: a[3], dtend: a[4], organizer: a[5], url: a[6], attendee: [a[7]], comment: [a[8]], freebusy: [a[9]] }?)) },
    Call { kind: Kind::Timezone, label: "all", fields: &["tzid", "last_modified", "tzurl"], f: |a| Ok(Any::Timezone(ikal::vtimezone! { tzid: a[0], last_modified: a[1], tzurl: a[2] }?)) },
    Call { kind: Kind::Timezone, label: "all reversed", fields: &["tzurl", "last_modified", "tzid"], f: |a| Ok(Any::Timezone(ikal::vtimezone! { tzurl: a[0], last_modified: a[1], tzid: a[2] }?)) },
    Call { kind: Kind::Timezone, label: "all but tzid", fields: &["last_modified", "tzurl"], f: |a| Ok(Any::Timezone(ikal::vtimezone! { last_modified: a[0], tzurl: a[1] }?)) },
    Call { kind: Kind::Timezone, label: "all but last_modified", fields: &["tzid", "tzurl"], f: |a| Ok(Any::Timezone(ikal::vtimezone! { tzid: a[0], tzurl: a[1] }?)) },
    Call { kind: Kind::Timezone, label: "all but tzurl", fields: &["tzid", "last_modified"], f: |a| Ok(Any::Timezone(ikal::vtimezone! { tzid: a[0], last_modified: a[1] }?)) },
    Call { kind: Kind::Standard, label: "all", fields: &["dtstart", "tzoffsetto", "tzoffsetfrom", "rrule", "comment", "tzname"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ dtstart: a[0], tzoffsetto: a[1], tzoffsetfrom: a[2], rrule: a[3], comment: [a[4]], tzname: [a[5]] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "all reversed", fields: &["tzname", "comment", "rrule", "tzoffsetfrom", "tzoffsetto", "dtstart"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ tzname: [a[0]], comment: [a[1]], rrule: a[2], tzoffsetfrom: a[3], tzoffsetto: a[4], dtstart: a[5] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "all but dtstart", fields: &["tzoffsetto", "tzoffsetfrom", "rrule", "comment", "tzname"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ tzoffsetto: a[0], tzoffsetfrom: a[1], rrule: a[2], comment: [a[3]], tzname: [a[4]] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "all but tzoffsetto", fields: &["dtstart", "tzoffsetfrom", "rrule", "comment", "tzname"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ dtstart: a[0], tzoffsetfrom: a[1], rrule: a[2], comment: [a[3]], tzname: [a[4]] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "all but tzoffsetfrom", fields: &["dtstart", "tzoffsetto", "rrule", "comment", "tzname"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ dtstart: a[0], tzoffsetto: a[1], rrule: a[2], comment: [a[3]], tzname: [a[4]] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "all but rrule", fields: &["dtstart", "tzoffsetto", "tzoffsetfrom", "comment", "tzname"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ dtstart: a[0], tzoffsetto: a[1], tzoffsetfrom: a[2], comment: [a[3]], tzname: [a[4]] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "all but comment", fields: &["dtstart", "tzoffsetto", "tzoffsetfrom", "rrule", "tzname"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ dtstart: a[0], tzoffsetto: a[1], tzoffsetfrom: a[2], rrule: a[3], tzname: [a[4]] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "all but tzname", fields: &["dtstart", "tzoffsetto", "tzoffsetfrom", "rrule", "comment"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ dtstart: a[0], tzoffsetto: a[1], tzoffsetfrom: a[2], rrule: a[3], comment: [a[4]] }] }?.standard.remove(0))) },
    Call { kind: Kind::Daylight, label: "all", fields: &["dtstart", "tzoffsetto", "tzoffsetfrom", "rrule", "comment", "tzname"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ dtstart: a[0], tzoffsetto: a[1], tzoffsetfrom: a[2], rrule: a[3], comment: [a[4]], tzname: [a[5]] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "all reversed", fields: &["tzname", "comment", "rrule", "tzoffsetfrom", "tzoffsetto", "dtstart"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ tzname: [a[0]], comment: [a[1]], rrule: a[2], tzoffsetfrom: a[3], tzoffsetto: a[4], dtstart: a[5] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "all but dtstart", fields: &["tzoffsetto", "tzoffsetfrom", "rrule", "comment", "tzname"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ tzoffsetto: a[0], tzoffsetfrom: a[1], rrule: a[2], comment: [a[3]], tzname: [a[4]] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "all but tzoffsetto", fields: &["dtstart", "tzoffsetfrom", "rrule", "comment", "tzname"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ dtstart: a[0], tzoffsetfrom: a[1], rrule: a[2], comment: [a[3]], tzname: [a[4]] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "all but tzoffsetfrom", fields: &["dtstart", "tzoffsetto", "rrule", "comment", "tzname"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ dtstart: a[0], tzoffsetto: a[1], rrule: a[2], comment: [a[3]], tzname: [a[4]] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "all but rrule", fields: &["dtstart", "tzoffsetto", "tzoffsetfrom", "comment", "tzname"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ dtstart: a[0], tzoffsetto: a[1], tzoffsetfrom: a[2], comment: [a[3]], tzname: [a[4]] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "all but comment", fields: &["dtstart", "tzoffsetto", "tzoffsetfrom", "rrule", "tzname"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ dtstart: a[0], tzoffsetto: a[1], tzoffsetfrom: a[2], rrule: a[3], tzname: [a[4]] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "all but tzname", fields: &["dtstart", "tzoffsetto", "tzoffsetfrom", "rrule", "comment"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ dtstart: a[0], tzoffsetto: a[1], tzoffsetfrom: a[2], rrule: a[3], comment: [a[4]] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Audio, label: "all", fields: &["action", "trigger", "duration", "repeat", "attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, action: a[0], trigger: a[1], duration: a[2], repeat: num::<u32>(a[3]), attach: [a[4]] }?)) },
    Call { kind: Kind::Audio, label: "all reversed", fields: &["attach", "repeat", "duration", "trigger", "action"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, attach: [a[0]], repeat: num::<u32>(a[1]), duration: a[2], trigger: a[3], action: a[4] }?)) },
    Call { kind: Kind::Audio, label: "all but action", fields: &["trigger", "duration", "repeat", "attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, trigger: a[0], duration: a[1], repeat: num::<u32>(a[2]), attach: [a[3]] }?)) },
    Call { kind: Kind::Audio, label: "all but trigger", fields: &["action", "duration", "repeat", "attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, action: a[0], duration: a[1], repeat: num::<u32>(a[2]), attach: [a[3]] }?)) },
    Call { kind: Kind::Audio, label: "all but duration", fields: &["action", "trigger", "repeat", "attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, action: a[0], trigger: a[1], repeat: num::<u32>(a[2]), attach: [a[3]] }?)) },
    Call { kind: Kind::Audio, label: "all but repeat", fields: &["action", "trigger", "duration", "attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, action: a[0], trigger: a[1], duration: a[2], attach: [a[3]] }?)) },
    Call { kind: Kind::Audio, label: "all but attach", fields: &["action", "trigger", "duration", "repeat"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, action: a[0], trigger: a[1], duration: a[2], repeat: num::<u32>(a[3]) }?)) },
    Call { kind: Kind::Display, label: "all", fields: &["action", "trigger", "description", "duration", "repeat"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, action: a[0], trigger: a[1], description: a[2], duration: a[3], repeat: num::<u32>(a[4]) }?)) },
    Call { kind: Kind::Display, label: "all reversed", fields: &["repeat", "duration", "description", "trigger", "action"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, repeat: num::<u32>(a[0]), duration: a[1], description: a[2], trigger: a[3], action: a[4] }?)) },
    Call { kind: Kind::Display, label: "all but action", fields: &["trigger", "description", "duration", "repeat"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, trigger: a[0], description: a[1], duration: a[2], repeat: num::<u32>(a[3]) }?)) },
    Call { kind: Kind::Display, label: "all but trigger", fields: &["action", "description", "duration", "repeat"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, action: a[0], description: a[1], duration: a[2], repeat: num::<u32>(a[3]) }?)) },
    Call { kind: Kind::Display, label: "all but description", fields: &["action", "trigger", "duration", "repeat"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, action: a[0], trigger: a[1], duration: a[2], repeat: num::<u32>(a[3]) }?)) },
    Call { kind: Kind::Display, label: "all but duration", fields: &["action", "trigger", "description", "repeat"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, action: a[0], trigger: a[1], description: a[2], repeat: num::<u32>(a[3]) }?)) },
    Call { kind: Kind::Display, label: "all but repeat", fields: &["action", "trigger", "description", "duration"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, action: a[0], trigger: a[1], description: a[2], duration: a[3] }?)) },
    Call { kind: Kind::Email, label: "all", fields: &["action", "trigger", "description", "summary", "attendee", "duration", "repeat", "attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, action: a[0], trigger: a[1], description: a[2], summary: a[3], attendee: [a[4]], duration: a[5], repeat: num::<u32>(a[6]), attach: [a[7]] }?)) },
    Call { kind: Kind::Email, label: "all reversed", fields: &["attach", "repeat", "duration", "attendee", "summary", "description", "trigger", "action"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, attach: [a[0]], repeat: num::<u32>(a[1]), duration: a[2], attendee: [a[3]], summary: a[4], description: a[5], trigger: a[6], action: a[7] }?)) },
    Call { kind: Kind::Email, label: "all but action", fields: &["trigger", "description", "summary", "attendee", "duration", "repeat", "attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, trigger: a[0], description: a[1], summary: a[2], attendee: [a[3]], duration: a[4], repeat: num::<u32>(a[5]), attach: [a[6]] }?)) },
    Call { kind: Kind::Email, label: "all but trigger", fields: &["action", "description", "summary", "attendee", "duration", "repeat", "attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, action: a[0], description: a[1], summary: a[2], attendee: [a[3]], duration: a[4], repeat: num::<u32>(a[5]), attach: [a[6]] }?)) },
    Call { kind: Kind::Email, label: "all but description", fields: &["action", "trigger", "summary", "attendee", "duration", "repeat", "attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, action: a[0], trigger: a[1], summary: a[2], attendee: [a[3]], duration: a[4], repeat: num::<u32>(a[5]), attach: [a[6]] }?)) },
    Call { kind: Kind::Email, label: "all but summary", fields: &["action", "trigger", "description", "attendee", "duration", "repeat", "attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, action: a[0], trigger: a[1], description: a[2], attendee: [a[3]], duration: a[4], repeat: num::<u32>(a[5]), attach: [a[6]] }?)) },
    Call { kind: Kind::Email, label: "all but attendee", fields: &["action", "trigger", "description", "summary", "duration", "repeat", "attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, action: a[0], trigger: a[1], description: a[2], summary: a[3], duration: a[4], repeat: num::<u32>(a[5]), attach: [a[6]] }?)) },
    Call { kind: Kind::Email, label: "all but duration", fields: &["action", "trigger", "description", "summary", "attendee", "repeat", "attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, action: a[0], trigger: a[1], description: a[2], summary: a[3], attendee: [a[4]], repeat: num::<u32>(a[5]), attach: [a[6]] }?)) },
    Call { kind: Kind::Email, label: "all but repeat", fields: &["action", "trigger", "description", "summary", "attendee", "duration", "attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, action: a[0], trigger: a[1], description: a[2], summary: a[3], attendee: [a[4]], duration: a[5], attach: [a[6]] }?)) },
    Call { kind: Kind::Email, label: "all but attach", fields: &["action", "trigger", "description", "summary", "attendee", "duration", "repeat"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, action: a[0], trigger: a[1], description: a[2], summary: a[3], attendee: [a[4]], duration: a[5], repeat: num::<u32>(a[6]) }?)) },
];

pub const REQUIRED: &[Call] = &[
    Call { kind: Kind::Calendar, label: "required and calscale", fields: &["prodid", "version", "calscale"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { prodid: a[0], version: a[1], calscale: a[2] }?)) },
    Call { kind: Kind::Calendar, label: "calscale and required", fields: &["calscale", "prodid", "version"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { calscale: a[0], prodid: a[1], version: a[2] }?)) },
    Call { kind: Kind::Calendar, label: "required and method", fields: &["prodid", "version", "method"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { prodid: a[0], version: a[1], method: a[2] }?)) },
    Call { kind: Kind::Calendar, label: "method and required", fields: &["method", "prodid", "version"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { method: a[0], prodid: a[1], version: a[2] }?)) },
    Call { kind: Kind::Calendar, label: "required", fields: &["prodid", "version"], f: |a| Ok(Any::Calendar(ikal::vcalendar! { prodid: a[0], version: a[1] }?)) },
    Call { kind: Kind::Event, label: "required and class", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential }?)) },
    Call { kind: Kind::Event, label: "class and required", fields: &["class=CONFIDENTIAL", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Event(ikal::vevent! { class: Confidential, dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Event, label: "required and created", fields: &["dtstamp", "uid", "dtstart", "created"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], created: a[3] }?)) },
    Call { kind: Kind::Event, label: "created and required", fields: &["created", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Event(ikal::vevent! { created: a[0], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Event, label: "required and description", fields: &["dtstamp", "uid", "dtstart", "description"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], description: a[3] }?)) },
    Call { kind: Kind::Event, label: "description and required", fields: &["description", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Event(ikal::vevent! { description: a[0], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Event, label: "required and geo", fields: &["dtstamp", "uid", "dtstart", "geo"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], geo: a[3] }?)) },
    Call { kind: Kind::Event, label: "geo and required", fields: &["geo", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Event(ikal::vevent! { geo: a[0], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Event, label: "required and last_modified", fields: &["dtstamp", "uid", "dtstart", "last_modified"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], last_modified: a[3] }?)) },
    Call { kind: Kind::Event, label: "last_modified and required", fields: &["last_modified", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Event(ikal::vevent! { last_modified: a[0], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Event, label: "required and location", fields: &["dtstamp", "uid", "dtstart", "location"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], location: a[3] }?)) },
    Call { kind: Kind::Event, label: "location and required", fields: &["location", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Event(ikal::vevent! { location: a[0], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Event, label: "required and organizer", fields: &["dtstamp", "uid", "dtstart", "organizer"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], organizer: a[3] }?)) },
    Call { kind: Kind::Event, label: "organizer and required", fields: &["organizer", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Event(ikal::vevent! { organizer: a[0], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Event, label: "required and priority", fields: &["dtstamp", "uid", "dtstart", "priority"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], priority: num::<u8>(a[3]) }?)) },
    Call { kind: Kind::Event, label: "priority and required", fields: &["priority", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Event(ikal::vevent! { priority: num::<u8>(a[0]), dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Event, label: "required and sequence", fields: &["dtstamp", "uid", "dtstart", "sequence"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], sequence: num::<u32>(a[3]) }?)) },
    Call { kind: Kind::Event, label: "sequence and required", fields: &["sequence", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Event(ikal::vevent! { sequence: num::<u32>(a[0]), dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Event, label: "required and status", fields: &["dtstamp", "uid", "dtstart", "status=IN-PROCESS"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], status: InProcess }?)) },
    Call { kind: Kind::Event, label: "status and required", fields: &["status=IN-PROCESS", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Event(ikal::vevent! { status: InProcess, dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Event, label: "required and summary", fields: &["dtstamp", "uid", "dtstart", "summary"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], summary: a[3] }?)) },
    Call { kind: Kind::Event, label: "summary and required", fields: &["summary", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Event(ikal::vevent! { summary: a[0], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Event, label: "required and transp", fields: &["dtstamp", "uid", "dtstart", "transp=TRANSPARENT"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], transp: Transparent }?)) },
    Call { kind: Kind::Event, label: "transp and required", fields: &["transp=TRANSPARENT", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Event(ikal::vevent! { transp: Transparent, dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Event, label: "required and url", fields: &["dtstamp", "uid", "dtstart", "url"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], url: a[3] }?)) },
    Call { kind: Kind::Event, label: "url and required", fields: &["url", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Event(ikal::vevent! { url: a[0], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Event, label: "required and rrule", fields: &["dtstamp", "uid", "dtstart", "rrule"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], rrule: a[3] }?)) },
    Call { kind: Kind::Event, label: "rrule and required", fields: &["rrule", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Event(ikal::vevent! { rrule: a[0], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Event, label: "required and dtend", fields: &["dtstamp", "uid", "dtstart", "dtend"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], dtend: a[3] }?)) },
    Call { kind: Kind::Event, label: "dtend and required", fields: &["dtend", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Event(ikal::vevent! { dtend: a[0], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Event, label: "required and duration", fields: &["dtstamp", "uid", "dtstart", "duration"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], duration: a[3] }?)) },
    Call { kind: Kind::Event, label: "duration and required", fields: &["duration", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Event(ikal::vevent! { duration: a[0], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Event, label: "required and attach", fields: &["dtstamp", "uid", "dtstart", "attach"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], attach: [a[3]] }?)) },
    Call { kind: Kind::Event, label: "attach and required", fields: &["attach", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Event(ikal::vevent! { attach: [a[0]], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Event, label: "required and attendee", fields: &["dtstamp", "uid", "dtstart", "attendee"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], attendee: [a[3]] }?)) },
    Call { kind: Kind::Event, label: "attendee and required", fields: &["attendee", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Event(ikal::vevent! { attendee: [a[0]], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Event, label: "required and categories", fields: &["dtstamp", "uid", "dtstart", "categories"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], categories: [a[3]] }?)) },
    Call { kind: Kind::Event, label: "categories and required", fields: &["categories", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Event(ikal::vevent! { categories: [a[0]], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Event, label: "required and comment", fields: &["dtstamp", "uid", "dtstart", "comment"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], comment: [a[3]] }?)) },
    Call { kind: Kind::Event, label: "comment and required", fields: &["comment", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Event(ikal::vevent! { comment: [a[0]], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Event, label: "required and contact", fields: &["dtstamp", "uid", "dtstart", "contact"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], contact: [a[3]] }?)) },
    Call { kind: Kind::Event, label: "contact and required", fields: &["contact", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Event(ikal::vevent! { contact: [a[0]], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Event, label: "required and exdate", fields: &["dtstamp", "uid", "dtstart", "exdate"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], exdate: [a[3]] }?)) },
    Call { kind: Kind::Event, label: "exdate and required", fields: &["exdate", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Event(ikal::vevent! { exdate: [a[0]], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Event, label: "required and rstatus", fields: &["dtstamp", "uid", "dtstart", "rstatus"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], rstatus: [a[3]] }?)) },
    Call { kind: Kind::Event, label: "rstatus and required", fields: &["rstatus", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Event(ikal::vevent! { rstatus: [a[0]], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Event, label: "required and related_to", fields: &["dtstamp", "uid", "dtstart", "related_to"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], related_to: [a[3]] }?)) },
    Call { kind: Kind::Event, label: "related_to and required", fields: &["related_to", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Event(ikal::vevent! { related_to: [a[0]], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Event, label: "required and resources", fields: &["dtstamp", "uid", "dtstart", "resources"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2], resources: [a[3]] }?)) },
    Call { kind: Kind::Event, label: "resources and required", fields: &["resources", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Event(ikal::vevent! { resources: [a[0]], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Event, label: "required", fields: &["dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Event(ikal::vevent! { dtstamp: a[0], uid: a[1], dtstart: a[2] }?)) },
    Call { kind: Kind::Todo, label: "required and class", fields: &["dtstamp", "uid", "class=CONFIDENTIAL"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], class: Confidential }?)) },
    Call { kind: Kind::Todo, label: "class and required", fields: &["class=CONFIDENTIAL", "dtstamp", "uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { class: Confidential, dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Todo, label: "required and completed", fields: &["dtstamp", "uid", "completed"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], completed: a[2] }?)) },
    Call { kind: Kind::Todo, label: "completed and required", fields: &["completed", "dtstamp", "uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { completed: a[0], dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Todo, label: "required and created", fields: &["dtstamp", "uid", "created"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], created: a[2] }?)) },
    Call { kind: Kind::Todo, label: "created and required", fields: &["created", "dtstamp", "uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { created: a[0], dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Todo, label: "required and dtstart", fields: &["dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], dtstart: a[2] }?)) },
    Call { kind: Kind::Todo, label: "dtstart and required", fields: &["dtstart", "dtstamp", "uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstart: a[0], dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Todo, label: "required and geo", fields: &["dtstamp", "uid", "geo"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], geo: a[2] }?)) },
    Call { kind: Kind::Todo, label: "geo and required", fields: &["geo", "dtstamp", "uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { geo: a[0], dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Todo, label: "required and last_modified", fields: &["dtstamp", "uid", "last_modified"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], last_modified: a[2] }?)) },
    Call { kind: Kind::Todo, label: "last_modified and required", fields: &["last_modified", "dtstamp", "uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { last_modified: a[0], dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Todo, label: "required and location", fields: &["dtstamp", "uid", "location"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], location: a[2] }?)) },
    Call { kind: Kind::Todo, label: "location and required", fields: &["location", "dtstamp", "uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { location: a[0], dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Todo, label: "required and organizer", fields: &["dtstamp", "uid", "organizer"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], organizer: a[2] }?)) },
    Call { kind: Kind::Todo, label: "organizer and required", fields: &["organizer", "dtstamp", "uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { organizer: a[0], dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Todo, label: "required and percent_complete", fields: &["dtstamp", "uid", "percent_complete"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], percent_complete: num::<u8>(a[2]) }?)) },
    Call { kind: Kind::Todo, label: "percent_complete and required", fields: &["percent_complete", "dtstamp", "uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { percent_complete: num::<u8>(a[0]), dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Todo, label: "required and priority", fields: &["dtstamp", "uid", "priority"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], priority: num::<u8>(a[2]) }?)) },
    Call { kind: Kind::Todo, label: "priority and required", fields: &["priority", "dtstamp", "uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { priority: num::<u8>(a[0]), dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Todo, label: "required and sequence", fields: &["dtstamp", "uid", "sequence"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], sequence: num::<u32>(a[2]) }?)) },
    Call { kind: Kind::Todo, label: "sequence and required", fields: &["sequence", "dtstamp", "uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { sequence: num::<u32>(a[0]), dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Todo, label: "required and status", fields: &["dtstamp", "uid", "status=IN-PROCESS"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], status: InProcess }?)) },
    Call { kind: Kind::Todo, label: "status and required", fields: &["status=IN-PROCESS", "dtstamp", "uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { status: InProcess, dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Todo, label: "required and summary", fields: &["dtstamp", "uid", "summary"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], summary: a[2] }?)) },
    Call { kind: Kind::Todo, label: "summary and required", fields: &["summary", "dtstamp", "uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { summary: a[0], dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Todo, label: "required and url", fields: &["dtstamp", "uid", "url"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], url: a[2] }?)) },
    Call { kind: Kind::Todo, label: "url and required", fields: &["url", "dtstamp", "uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { url: a[0], dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Todo, label: "required and rrule", fields: &["dtstamp", "uid", "rrule"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], rrule: a[2] }?)) },
    Call { kind: Kind::Todo, label: "rrule and required", fields: &["rrule", "dtstamp", "uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { rrule: a[0], dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Todo, label: "required and due", fields: &["dtstamp", "uid", "due"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], due: a[2] }?)) },
    Call { kind: Kind::Todo, label: "due and required", fields: &["due", "dtstamp", "uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { due: a[0], dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Todo, label: "required and duration", fields: &["dtstamp", "uid", "duration"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], duration: a[2] }?)) },
    Call { kind: Kind::Todo, label: "duration and required", fields: &["duration", "dtstamp", "uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { duration: a[0], dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Todo, label: "required and attach", fields: &["dtstamp", "uid", "attach"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], attach: [a[2]] }?)) },
    Call { kind: Kind::Todo, label: "attach and required", fields: &["attach", "dtstamp", "uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { attach: [a[0]], dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Todo, label: "required and attendee", fields: &["dtstamp", "uid", "attendee"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], attendee: [a[2]] }?)) },
    Call { kind: Kind::Todo, label: "attendee and required", fields: &["attendee", "dtstamp", "uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { attendee: [a[0]], dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Todo, label: "required and categories", fields: &["dtstamp", "uid", "categories"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], categories: [a[2]] }?)) },
    Call { kind: Kind::Todo, label: "categories and required", fields: &["categories", "dtstamp", "uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { categories: [a[0]], dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Todo, label: "required and comment", fields: &["dtstamp", "uid", "comment"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], comment: [a[2]] }?)) },
    Call { kind: Kind::Todo, label: "comment and required", fields: &["comment", "dtstamp", "uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { comment: [a[0]], dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Todo, label: "required and contact", fields: &["dtstamp", "uid", "contact"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], contact: [a[2]] }?)) },
    Call { kind: Kind::Todo, label: "contact and required", fields: &["contact", "dtstamp", "uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { contact: [a[0]], dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Todo, label: "required and exdate", fields: &["dtstamp", "uid", "exdate"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], exdate: [a[2]] }?)) },
    Call { kind: Kind::Todo, label: "exdate and required", fields: &["exdate", "dtstamp", "uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { exdate: [a[0]], dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Todo, label: "required and rstatus", fields: &["dtstamp", "uid", "rstatus"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], rstatus: [a[2]] }?)) },
    Call { kind: Kind::Todo, label: "rstatus and required", fields: &["rstatus", "dtstamp", "uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { rstatus: [a[0]], dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Todo, label: "required and related_to", fields: &["dtstamp", "uid", "related_to"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], related_to: [a[2]] }?)) },
    Call { kind: Kind::Todo, label: "related_to and required", fields: &["related_to", "dtstamp", "uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { related_to: [a[0]], dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Todo, label: "required and resources", fields: &["dtstamp", "uid", "resources"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1], resources: [a[2]] }?)) },
    Call { kind: Kind::Todo, label: "resources and required", fields: &["resources", "dtstamp", "uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { resources: [a[0]], dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Todo, label: "required", fields: &["dtstamp", "uid"], f: |a| Ok(Any::Todo(ikal::vtodo! { dtstamp: a[0], uid: a[1] }?)) },
    Call { kind: Kind::Journal, label: "required and class", fields: &["dtstamp", "uid", "dtstart", "class=CONFIDENTIAL"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], class: Confidential }?)) },
    Call { kind: Kind::Journal, label: "class and required", fields: &["class=CONFIDENTIAL", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Journal(ikal::vjournal! { class: Confidential, dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Journal, label: "required and created", fields: &["dtstamp", "uid", "dtstart", "created"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], created: a[3] }?)) },
    Call { kind: Kind::Journal, label: "created and required", fields: &["created", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Journal(ikal::vjournal! { created: a[0], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Journal, label: "required and last_modified", fields: &["dtstamp", "uid", "dtstart", "last_modified"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], last_modified: a[3] }?)) },
    Call { kind: Kind::Journal, label: "last_modified and required", fields: &["last_modified", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Journal(ikal::vjournal! { last_modified: a[0], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Journal, label: "required and organizer", fields: &["dtstamp", "uid", "dtstart", "organizer"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], organizer: a[3] }?)) },
    Call { kind: Kind::Journal, label: "organizer and required", fields: &["organizer", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Journal(ikal::vjournal! { organizer: a[0], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Journal, label: "required and sequence", fields: &["dtstamp", "uid", "dtstart", "sequence"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], sequence: num::<u32>(a[3]) }?)) },
    Call { kind: Kind::Journal, label: "sequence and required", fields: &["sequence", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Journal(ikal::vjournal! { sequence: num::<u32>(a[0]), dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Journal, label: "required and status", fields: &["dtstamp", "uid", "dtstart", "status=IN-PROCESS"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], status: InProcess }?)) },
    Call { kind: Kind::Journal, label: "status and required", fields: &["status=IN-PROCESS", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Journal(ikal::vjournal! { status: InProcess, dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Journal, label: "required and summary", fields: &["dtstamp", "uid", "dtstart", "summary"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], summary: a[3] }?)) },
    Call { kind: Kind::Journal, label: "summary and required", fields: &["summary", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Journal(ikal::vjournal! { summary: a[0], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Journal, label: "required and url", fields: &["dtstamp", "uid", "dtstart", "url"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], url: a[3] }?)) },
    Call { kind: Kind::Journal, label: "url and required", fields: &["url", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Journal(ikal::vjournal! { url: a[0], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Journal, label: "required and rrule", fields: &["dtstamp", "uid", "dtstart", "rrule"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], rrule: a[3] }?)) },
    Call { kind: Kind::Journal, label: "rrule and required", fields: &["rrule", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Journal(ikal::vjournal! { rrule: a[0], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Journal, label: "required and attach", fields: &["dtstamp", "uid", "dtstart", "attach"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], attach: [a[3]] }?)) },
    Call { kind: Kind::Journal, label: "attach and required", fields: &["attach", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Journal(ikal::vjournal! { attach: [a[0]], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Journal, label: "required and attendee", fields: &["dtstamp", "uid", "dtstart", "attendee"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], attendee: [a[3]] }?)) },
    Call { kind: Kind::Journal, label: "attendee and required", fields: &["attendee", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Journal(ikal::vjournal! { attendee: [a[0]], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Journal, label: "required and categories", fields: &["dtstamp", "uid", "dtstart", "categories"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], categories: [a[3]] }?)) },
    Call { kind: Kind::Journal, label: "categories and required", fields: &["categories", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Journal(ikal::vjournal! { categories: [a[0]], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Journal, label: "required and comment", fields: &["dtstamp", "uid", "dtstart", "comment"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], comment: [a[3]] }?)) },
    Call { kind: Kind::Journal, label: "comment and required", fields: &["comment", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Journal(ikal::vjournal! { comment: [a[0]], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Journal, label: "required and contact", fields: &["dtstamp", "uid", "dtstart", "contact"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], contact: [a[3]] }?)) },
    Call { kind: Kind::Journal, label: "contact and required", fields: &["contact", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Journal(ikal::vjournal! { contact: [a[0]], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Journal, label: "required and description", fields: &["dtstamp", "uid", "dtstart", "description"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], description: [a[3]] }?)) },
    Call { kind: Kind::Journal, label: "description and required", fields: &["description", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Journal(ikal::vjournal! { description: [a[0]], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Journal, label: "required and exdate", fields: &["dtstamp", "uid", "dtstart", "exdate"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], exdate: [a[3]] }?)) },
    Call { kind: Kind::Journal, label: "exdate and required", fields: &["exdate", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Journal(ikal::vjournal! { exdate: [a[0]], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Journal, label: "required and related_to", fields: &["dtstamp", "uid", "dtstart", "related_to"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], related_to: [a[3]] }?)) },
    Call { kind: Kind::Journal, label: "related_to and required", fields: &["related_to", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Journal(ikal::vjournal! { related_to: [a[0]], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Journal, label: "required and rstatus", fields: &["dtstamp", "uid", "dtstart", "rstatus"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2], rstatus: [a[3]] }?)) },
    Call { kind: Kind::Journal, label: "rstatus and required", fields: &["rstatus", "dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Journal(ikal::vjournal! { rstatus: [a[0]], dtstamp: a[1], uid: a[2], dtstart: a[3] }?)) },
    Call { kind: Kind::Journal, label: "required", fields: &["dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Journal(ikal::vjournal! { dtstamp: a[0], uid: a[1], dtstart: a[2] }?)) },
    Call { kind: Kind::Freebusy, label: "required and contact", fields: &["dtstamp", "uid", "contact"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], uid: a[1], contact: a[2] }?)) },
    Call { kind: Kind::Freebusy, label: "contact and required", fields: &["contact", "dtstamp", "uid"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { contact: a[0], dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Freebusy, label: "required and dtstart", fields: &["dtstamp", "uid", "dtstart"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], uid: a[1], dtstart: a[2] }?)) },
    Call { kind: Kind::Freebusy, label: "dtstart and required", fields: &["dtstart", "dtstamp", "uid"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstart: a[0], dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Freebusy, label: "required and dtend", fields: &["dtstamp", "uid", "dtend"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], uid: a[1], dtend: a[2] }?)) },
    Call { kind: Kind::Freebusy, label: "dtend and required", fields: &["dtend", "dtstamp", "uid"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtend: a[0], dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Freebusy, label: "required and organizer", fields: &["dtstamp", "uid", "organizer"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], uid: a[1], organizer: a[2] }?)) },
    Call { kind: Kind::Freebusy, label: "organizer and required", fields: &["organizer", "dtstamp", "uid"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { organizer: a[0], dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Freebusy, label: "required and url", fields: &["dtstamp", "uid", "url"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], uid: a[1], url: a[2] }?)) },
    Call { kind: Kind::Freebusy, label: "url and required", fields: &["url", "dtstamp", "uid"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { url: a[0], dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Freebusy, label: "required and attendee", fields: &["dtstamp", "uid", "attendee"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], uid: a[1], attendee: [a[2]] }?)) },
    Call { kind: Kind::Freebusy, label: "attendee and required", fields: &["attendee", "dtstamp", "uid"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { attendee: [a[0]], dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Freebusy, label: "required and comment", fields: &["dtstamp", "uid", "comment"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], uid: a[1], comment: [a[2]] }?)) },
    Call { kind: Kind::Freebusy, label: "comment and required", fields: &["comment", "dtstamp", "uid"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { comment: [a[0]], dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Freebusy, label: "required and freebusy", fields: &["dtstamp", "uid", "freebusy"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], uid: a[1], freebusy: [a[2]] }?)) },
    Call { kind: Kind::Freebusy, label: "freebusy and required", fields: &["freebusy", "dtstamp", "uid"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { freebusy: [a[0]], dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Freebusy, label: "required and rstatus", fields: &["dtstamp", "uid", "rstatus"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], uid: a[1], rstatus: [a[2]] }?)) },
    Call { kind: Kind::Freebusy, label: "rstatus and required", fields: &["rstatus", "dtstamp", "uid"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { rstatus: [a[0]], dtstamp: a[1], uid: a[2] }?)) },
    Call { kind: Kind::Freebusy, label: "required", fields: &["dtstamp", "uid"], f: |a| Ok(Any::Freebusy(ikal::vfreebusy! { dtstamp: a[0], uid: a[1] }?)) },
    Call { kind: Kind::Timezone, label: "required and last_modified", fields: &["tzid", "last_modified"], f: |a| Ok(Any::Timezone(ikal::vtimezone! { tzid: a[0], last_modified: a[1] }?)) },
    Call { kind: Kind::Timezone, label: "last_modified and required", fields: &["last_modified", "tzid"], f: |a| Ok(Any::Timezone(ikal::vtimezone! { last_modified: a[0], tzid: a[1] }?)) },
    Call { kind: Kind::Timezone, label: "required and tzurl", fields: &["tzid", "tzurl"], f: |a| Ok(Any::Timezone(ikal::vtimezone! { tzid: a[0], tzurl: a[1] }?)) },
    Call { kind: Kind::Timezone, label: "tzurl and required", fields: &["tzurl", "tzid"], f: |a| Ok(Any::Timezone(ikal::vtimezone! { tzurl: a[0], tzid: a[1] }?)) },
    Call { kind: Kind::Timezone, label: "required", fields: &["tzid"], f: |a| Ok(Any::Timezone(ikal::vtimezone! { tzid: a[0] }?)) },
    Call { kind: Kind::Standard, label: "required and rrule", fields: &["dtstart", "tzoffsetto", "tzoffsetfrom", "rrule"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ dtstart: a[0], tzoffsetto: a[1], tzoffsetfrom: a[2], rrule: a[3] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "rrule and required", fields: &["rrule", "dtstart", "tzoffsetto", "tzoffsetfrom"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ rrule: a[0], dtstart: a[1], tzoffsetto: a[2], tzoffsetfrom: a[3] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "required and comment", fields: &["dtstart", "tzoffsetto", "tzoffsetfrom", "comment"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ dtstart: a[0], tzoffsetto: a[1], tzoffsetfrom: a[2], comment: [a[3]] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "comment and required", fields: &["comment", "dtstart", "tzoffsetto", "tzoffsetfrom"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ comment: [a[0]], dtstart: a[1], tzoffsetto: a[2], tzoffsetfrom: a[3] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "required and tzname", fields: &["dtstart", "tzoffsetto", "tzoffsetfrom", "tzname"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ dtstart: a[0], tzoffsetto: a[1], tzoffsetfrom: a[2], tzname: [a[3]] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "tzname and required", fields: &["tzname", "dtstart", "tzoffsetto", "tzoffsetfrom"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ tzname: [a[0]], dtstart: a[1], tzoffsetto: a[2], tzoffsetfrom: a[3] }] }?.standard.remove(0))) },
    Call { kind: Kind::Standard, label: "required", fields: &["dtstart", "tzoffsetto", "tzoffsetfrom"], f: |a| Ok(Any::Standard(ikal::vtimezone! { standard: [{ dtstart: a[0], tzoffsetto: a[1], tzoffsetfrom: a[2] }] }?.standard.remove(0))) },
    Call { kind: Kind::Daylight, label: "required and rrule", fields: &["dtstart", "tzoffsetto", "tzoffsetfrom", "rrule"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ dtstart: a[0], tzoffsetto: a[1], tzoffsetfrom: a[2], rrule: a[3] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "rrule and required", fields: &["rrule", "dtstart", "tzoffsetto", "tzoffsetfrom"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ rrule: a[0], dtstart: a[1], tzoffsetto: a[2], tzoffsetfrom: a[3] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "required and comment", fields: &["dtstart", "tzoffsetto", "tzoffsetfrom", "comment"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ dtstart: a[0], tzoffsetto: a[1], tzoffsetfrom: a[2], comment: [a[3]] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "comment and required", fields: &["comment", "dtstart", "tzoffsetto", "tzoffsetfrom"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ comment: [a[0]], dtstart: a[1], tzoffsetto: a[2], tzoffsetfrom: a[3] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "required and tzname", fields: &["dtstart", "tzoffsetto", "tzoffsetfrom", "tzname"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ dtstart: a[0], tzoffsetto: a[1], tzoffsetfrom: a[2], tzname: [a[3]] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "tzname and required", fields: &["tzname", "dtstart", "tzoffsetto", "tzoffsetfrom"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ tzname: [a[0]], dtstart: a[1], tzoffsetto: a[2], tzoffsetfrom: a[3] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Daylight, label: "required", fields: &["dtstart", "tzoffsetto", "tzoffsetfrom"], f: |a| Ok(Any::Daylight(ikal::vtimezone! { daylight: [{ dtstart: a[0], tzoffsetto: a[1], tzoffsetfrom: a[2] }] }?.daylight.remove(0))) },
    Call { kind: Kind::Audio, label: "required and duration", fields: &["action", "trigger", "duration"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, action: a[0], trigger: a[1], duration: a[2] }?)) },
    Call { kind: Kind::Audio, label: "duration and required", fields: &["duration", "action", "trigger"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, duration: a[0], action: a[1], trigger: a[2] }?)) },
    Call { kind: Kind::Audio, label: "required and repeat", fields: &["action", "trigger", "repeat"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, action: a[0], trigger: a[1], repeat: num::<u32>(a[2]) }?)) },
    Call { kind: Kind::Audio, label: "repeat and required", fields: &["repeat", "action", "trigger"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, repeat: num::<u32>(a[0]), action: a[1], trigger: a[2] }?)) },
    Call { kind: Kind::Audio, label: "required and attach", fields: &["action", "trigger", "attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, action: a[0], trigger: a[1], attach: [a[2]] }?)) },
    Call { kind: Kind::Audio, label: "attach and required", fields: &["attach", "action", "trigger"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, attach: [a[0]], action: a[1], trigger: a[2] }?)) },
    Call { kind: Kind::Audio, label: "required", fields: &["action", "trigger"], f: |a| Ok(Any::Alarm(ikal::valarm! { @audio, action: a[0], trigger: a[1] }?)) },
    Call { kind: Kind::Display, label: "required and duration", fields: &["action", "trigger", "description", "duration"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, action: a[0], trigger: a[1], description: a[2], duration: a[3] }?)) },
    Call { kind: Kind::Display, label: "duration and required", fields: &["duration", "action", "trigger", "description"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, duration: a[0], action: a[1], trigger: a[2], description: a[3] }?)) },
    Call { kind: Kind::Display, label: "required and repeat", fields: &["action", "trigger", "description", "repeat"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, action: a[0], trigger: a[1], description: a[2], repeat: num::<u32>(a[3]) }?)) },
    Call { kind: Kind::Display, label: "repeat and required", fields: &["repeat", "action", "trigger", "description"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, repeat: num::<u32>(a[0]), action: a[1], trigger: a[2], description: a[3] }?)) },
    Call { kind: Kind::Display, label: "required", fields: &["action", "trigger", "description"], f: |a| Ok(Any::Alarm(ikal::valarm! { @display, action: a[0], trigger: a[1], description: a[2] }?)) },
    Call { kind: Kind::Email, label: "required and attendee", fields: &["action", "trigger", "description", "summary", "attendee"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, action: a[0], trigger: a[1], description: a[2], summary: a[3], attendee: [a[4]] }?)) },
    Call { kind: Kind::Email, label: "attendee and required", fields: &["attendee", "action", "trigger", "description", "summary"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, attendee: [a[0]], action: a[1], trigger: a[2], description: a[3], summary: a[4] }?)) },
    Call { kind: Kind::Email, label: "required and duration", fields: &["action", "trigger", "description", "summary", "duration"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, action: a[0], trigger: a[1], description: a[2], summary: a[3], duration: a[4] }?)) },
    Call { kind: Kind::Email, label: "duration and required", fields: &["duration", "action", "trigger", "description", "summary"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, duration: a[0], action: a[1], trigger: a[2], description: a[3], summary: a[4] }?)) },
    Call { kind: Kind::Email, label: "required and repeat", fields: &["action", "trigger", "description", "summary", "repeat"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, action: a[0], trigger: a[1], description: a[2], summary: a[3], repeat: num::<u32>(a[4]) }?)) },
    Call { kind: Kind::Email, label: "repeat and required", fields: &["repeat", "action", "trigger", "description", "summary"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, repeat: num::<u32>(a[0]), action: a[1], trigger: a[2], description: a[3], summary: a[4] }?)) },
    Call { kind: Kind::Email, label: "required and attach", fields: &["action", "trigger", "description", "summary", "attach"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, action: a[0], trigger: a[1], description: a[2], summary: a[3], attach: [a[4]] }?)) },
    Call { kind: Kind::Email, label: "attach and required", fields: &["attach", "action", "trigger", "description", "summary"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, attach: [a[0]], action: a[1], trigger: a[2], description: a[3], summary: a[4] }?)) },
    Call { kind: Kind::Email, label: "required", fields: &["action", "trigger", "description", "summary"], f: |a| Ok(Any::Alarm(ikal::valarm! { @email, action: a[0], trigger: a[1], description: a[2], summary: a[3] }?)) },
];
