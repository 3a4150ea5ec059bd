// ---------------------------------------------------------------- the documented table (src/network/mod.rs)
@@item src/network/mod.rs :: StreetCategory [derive=Copy, Clone, PartialEq, Eq, Structural]
pub enum Use { Yes, No, Unpicky, AtMostUnpicky }
pub open spec fn doc_speed(c: StreetCategory) -> real { match c { StreetCategory::Motorway => 130real, StreetCategory::MotorwayLink => 50real, StreetCategory::Trunk => 100real, StreetCategory::TrunkLink => 50real, StreetCategory::Primary => 100real, StreetCategory::PrimaryLink => 30real, StreetCategory::Secondary => 70real, StreetCategory::SecondaryLink => 30real, StreetCategory::Tertiary => 70real, StreetCategory::TertiaryLink => 30real, StreetCategory::Unclassified => 50real, StreetCategory::Residential => 50real, StreetCategory::LivingStreet => 15real, StreetCategory::Service => 20real, StreetCategory::Track => 30real, StreetCategory::Road => 50real, StreetCategory::Cycleway => 25real, StreetCategory::Pedestrian => 5real, StreetCategory::Path => 15real } }
pub open spec fn doc_car(c: StreetCategory) -> Use { match c { StreetCategory::Motorway => Use::Yes, StreetCategory::MotorwayLink => Use::Yes, StreetCategory::Trunk => Use::Yes, StreetCategory::TrunkLink => Use::Yes, StreetCategory::Primary => Use::Yes, StreetCategory::PrimaryLink => Use::Yes, StreetCategory::Secondary => Use::Yes, StreetCategory::SecondaryLink => Use::Yes, StreetCategory::Tertiary => Use::Yes, StreetCategory::TertiaryLink => Use::Yes, StreetCategory::Unclassified => Use::Yes, StreetCategory::Residential => Use::Yes, StreetCategory::LivingStreet => Use::Yes, StreetCategory::Service => Use::AtMostUnpicky, StreetCategory::Track => Use::Unpicky, StreetCategory::Road => Use::AtMostUnpicky, StreetCategory::Cycleway => Use::No, StreetCategory::Pedestrian => Use::No, StreetCategory::Path => Use::No } }
pub open spec fn doc_bicycle(c: StreetCategory) -> Use { match c { StreetCategory::Motorway => Use::No, StreetCategory::MotorwayLink => Use::No, StreetCategory::Trunk => Use::No, StreetCategory::TrunkLink => Use::No, StreetCategory::Primary => Use::Unpicky, StreetCategory::PrimaryLink => Use::Unpicky, StreetCategory::Secondary => Use::Unpicky, StreetCategory::SecondaryLink => Use::Unpicky, StreetCategory::Tertiary => Use::Yes, StreetCategory::TertiaryLink => Use::Yes, StreetCategory::Unclassified => Use::Yes, StreetCategory::Residential => Use::Yes, StreetCategory::LivingStreet => Use::Yes, StreetCategory::Service => Use::Yes, StreetCategory::Track => Use::Unpicky, StreetCategory::Road => Use::AtMostUnpicky, StreetCategory::Cycleway => Use::Yes, StreetCategory::Pedestrian => Use::Unpicky, StreetCategory::Path => Use::Unpicky } }
pub open spec fn doc_pedestrian(c: StreetCategory) -> Use { match c { StreetCategory::Motorway => Use::No, StreetCategory::MotorwayLink => Use::No, StreetCategory::Trunk => Use::No, StreetCategory::TrunkLink => Use::No, StreetCategory::Primary => Use::No, StreetCategory::PrimaryLink => Use::No, StreetCategory::Secondary => Use::No, StreetCategory::SecondaryLink => Use::No, StreetCategory::Tertiary => Use::No, StreetCategory::TertiaryLink => Use::No, StreetCategory::Unclassified => Use::No, StreetCategory::Residential => Use::Yes, StreetCategory::LivingStreet => Use::Yes, StreetCategory::Service => Use::Yes, StreetCategory::Track => Use::Yes, StreetCategory::Road => Use::AtMostUnpicky, StreetCategory::Cycleway => Use::No, StreetCategory::Pedestrian => Use::Yes, StreetCategory::Path => Use::Yes } }
pub open spec fn use_ok(u: Use, picky: bool, r: bool) -> bool { match u { Use::Yes => r, Use::No => !r, Use::Unpicky => r == !picky, Use::AtMostUnpicky => r ==> !picky } }
#[verifier::external_body] pub struct Tags { x: u8 }
pub uninterp spec fn tag_of(t: Tags, k: int) -> Option<int>;
impl Tags { #[verifier::external_body] pub fn get(&self, k: u64) -> (r: Option<&Str>) ensures r is Some == tag_of(*self, k as int) is Some, r is Some ==> code(*r->0) == tag_of(*self, k as int)->0 { unimplemented!() } }
pub struct Way { pub id: WayId, pub tags: Tags, pub nodes: Vec<NodeId> }   // osmpbfreader::Way
#[derive(Copy, Clone)] pub struct NodeId(pub i64);
#[derive(Copy, Clone)] pub struct WayId(pub i64);
pub fn max(a: u16, b: u16) -> (r: u16) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
@@item src/defaults.rs :: MIN_KMH [mod=speed]
impl StreetCategory {
@@fn src/defaults.rs :: StreetCategory::lane_count
%spec
    ensures r >= 1,
@@end
@@fn src/defaults.rs :: StreetCategory::parse_lane_count
%spec
    ensures r >= 1,
@@end
@@fn src/defaults.rs :: StreetCategory::maxspeed
%spec
    ensures r.0@ == Ext::Fin(doc_speed(*self)),
@@end
@@fn src/defaults.rs :: StreetCategory::is_for
%spec
    ensures *vehicle_category is Car ==> use_ok(doc_car(*self), is_driver_picky, r),
        *vehicle_category is Bicycle ==> use_ok(doc_bicycle(*self), is_driver_picky, r),
        *vehicle_category is Pedestrian ==> use_ok(doc_pedestrian(*self), is_driver_picky, r),
@@end
@@fn src/defaults.rs :: StreetCategory::is_for_vehicles
%spec
    ensures use_ok(doc_car(*self), is_driver_picky, r),
@@end
@@fn src/defaults.rs :: StreetCategory::is_for_bicycles
%spec
    ensures use_ok(doc_bicycle(*self), is_driver_picky, r),
@@end
@@fn src/defaults.rs :: StreetCategory::is_for_pedestrians
%spec
    ensures use_ok(doc_pedestrian(*self), _is_driver_picky, r),
@@end
}
/// speed for a tag that is no plain number: known spellings, otherwise the category's default
pub open spec fn tag_speed(c: StreetCategory, t: int) -> real { if (t == STR("de:motorway")) { doc_speed(StreetCategory::Motorway) }
    else { if (t == STR("100, 70") || t == STR("100; 50") || t == STR("100;70;50") || t == STR("100;70") || t == STR("100;80") || t == STR("100|70") || t == STR("50; 100") || t == STR("50;100") || t == STR("60 mph")) { 100real }
    else { if (t == STR("50 mph") || t == STR("60;80") || t == STR("80;60")) { 80real }
    else { if (t == STR("70; 50") || t == STR("50;70") || t == STR("50; 70") || t == STR("40 mph")) { 70real }
    else { if (t == STR("60;50")) { 60real }
    else { if (t == STR("20; 50") || t == STR("30 mph") || t == STR("30,50") || t == STR("30; 50") || t == STR("30;50") || t == STR("50; 30") || t == STR("50;30") || t == STR("50b") || t == STR("5ß") || t == STR("de:urban") || t == STR("maxspeed=50")) { 50real }
    else { if (t == STR("20 mph") || t == STR("30 @ (mo-fr 06:00-18:00)") || t == STR("30 kph") || t == STR("30;10") || t == STR("30; 40") || t == STR("3ß") || t == STR("conditional=30 @ (mo-fr 06:00-22:00)") || t == STR("de:zone:30") || t == STR("de:zone30") || t == STR("zone:maxspeed=de:30")) { 30real }
    else { if (t == STR("15 mph")) { 25real }
    else { if (t == STR("2ß")) { 20real }
    else { if (t == STR("de:bicycle_road")) { doc_speed(StreetCategory::Cycleway) }
    else { if (t == STR("10 mph") || t == STR("10#") || t == STR("1ß") || t == STR("3 mph") || t == STR("4-6") || t == STR("4-7") || t == STR("5 mph") || t == STR("6 km/h") || t == STR("6,5") || t == STR("7-10") || t == STR("de:living_street") || t == STR("de:walk") || t == STR("schrittgeschwindigkeit") || t == STR("walk")) { doc_speed(StreetCategory::LivingStreet) }
    else { doc_speed(c) } } } } } } } } } } } }
impl StreetCategory {
@@fn src/defaults.rs :: StreetCategory::parse_maxspeed
%rw: defaults::speed::MIN_KMH.into() => MIN_KMH as u16
%spec
    ensures
        tag_of(way.tags, STR("maxspeed") as int) is None ==> r.0@ == Ext::Fin(doc_speed(*self)),
        tag_of(way.tags, STR("maxspeed") as int) is Some ==> {
            let t = tag_of(way.tags, STR("maxspeed") as int)->0;
            match p_u16(t) {
                Some(v) => r.0@ == Ext::Fin(if v < 5 { 5real } else { v as real }),
                None => r.0@ == Ext::Fin(tag_speed(*self, lowered(trimmed(t)))),
            }
        },
@@end
@@fn src/defaults.rs :: StreetCategory::parse_oneway
%spec
    ensures
        tag_of(way.tags, STR("oneway") as int) is None ==> r == (false, false),
        tag_of(way.tags, STR("oneway") as int) is Some ==> r == oneway(lowered(trimmed(tag_of(way.tags, STR("oneway") as int)->0))),
@@end
@@fn src/defaults.rs :: StreetCategory as FromStr::from_str [keep_err]
%path: str => Str
%spec
    ensures r == street(lowered(trimmed(code(*s)))),
@@end
}
/// (is_oneway, is_reverse)
pub open spec fn oneway(t: int) -> (bool, bool) {
    if (t == STR("1") || t == STR("left;through") || t == STR("motor_vehicle") || t == STR("recommended") || t == STR("shelter") || t == STR("use_sidepath") || t == STR("yes + oneway:bicycle=no") || t == STR("yes")) { (true, false) } else if (t == STR("´-1") || t == STR("-1") || t == STR("-1;no")) { (true, true) } else { (false, false) } }
pub open spec fn street(t: int) -> Result<StreetCategory, bool> { if (t == STR("highway:motorway")) { Ok(StreetCategory::Motorway) }
    else { if (t == STR("highway:motorway_link")) { Ok(StreetCategory::MotorwayLink) }
    else { if (t == STR("highway:trunk")) { Ok(StreetCategory::Trunk) }
    else { if (t == STR("highway:trunk_link")) { Ok(StreetCategory::TrunkLink) }
    else { if (t == STR("highway:primary")) { Ok(StreetCategory::Primary) }
    else { if (t == STR("highway:primary_link")) { Ok(StreetCategory::PrimaryLink) }
    else { if (t == STR("highway:secondary")) { Ok(StreetCategory::Secondary) }
    else { if (t == STR("highway:secondary_link")) { Ok(StreetCategory::SecondaryLink) }
    else { if (t == STR("highway:tertiary")) { Ok(StreetCategory::Tertiary) }
    else { if (t == STR("highway:tertiary_link") || t == STR("highway:traffic_calming") || t == STR("highway:unclassified_link")) { Ok(StreetCategory::TertiaryLink) }
    else { if (t == STR("highway:give_way") || t == STR("highway:unclassified") || t == STR("highway:unclasified")) { Ok(StreetCategory::Unclassified) }
    else { if (t == STR("highway:area:residential") || t == STR("highway:asphalt") || t == STR("highway:junction") || t == STR("highway:mini_roundabout") || t == STR("highway:residential")) { Ok(StreetCategory::Residential) }
    else { if (t == STR("highway:living_street")) { Ok(StreetCategory::LivingStreet) }
    else { if (t == STR("highway:razed:service") || t == STR("highway:service;yes") || t == STR("highway:service") || t == STR("highway:sevice") || t == STR("highway:service2") || t == STR("highway:swervice")) { Ok(StreetCategory::Service) }
    else { if (t == STR("highway:byway") || t == STR("highway:historic") || t == STR("highway:path;unclassified") || t == STR("highway:tra#") || t == STR("highway:track") || t == STR("highway:track;path") || t == STR("highway:trank") || t == STR("highway:track; cycleway; cycleway; track; track")) { Ok(StreetCategory::Track) }
    else { if (t == STR("highway:4") || t == STR("highway:bridge") || t == STR("highway:fixme") || t == STR("highway:parking_aisle") || t == STR("highway:road") || t == STR("highway:yes")) { Ok(StreetCategory::Road) }
    else { if (t == STR("highway:cycleway") || t == STR("highway:bridleway")) { Ok(StreetCategory::Cycleway) }
    else { if (t == STR("highway:access_ramp") || t == STR("highway:access") || t == STR("highway:alley") || t == STR("highway:corridor") || t == STR("highway:crossing") || t == STR("highway:elevator") || t == STR("highway:footpath") || t == STR("highway:footway rad frei") || t == STR("highway:footway;service") || t == STR("highway:footway") || t == STR("highway:fo") || t == STR("highway:f") || t == STR("highway:pa") || t == STR("highway:pedestrian") || t == STR("highway:private_footway") || t == STR("highway:ramp") || t == STR("highway:schoolyard") || t == STR("highway:sidewalk") || t == STR("highway:stairs") || t == STR("highway:steps") || t == STR("highway:trail") || t == STR("highway:virtual") || t == STR("highway:vitrual") || t == STR("highway:yes;footway")) { Ok(StreetCategory::Pedestrian) }
    else { if (t == STR("highway:informal_path") || t == STR("highway:ladder") || t == STR("highway:path---") || t == STR("highway:path;steps") || t == STR("highway:path") || t == STR("highway:path/cycleway") || t == STR("highway:pathless")) { Ok(StreetCategory::Path) }
    else { if (t == STR("highway:85") || t == STR("highway:abondoned") || t == STR("highway:abandoned:highway") || t == STR("highway:abandoned:path") || t == STR("highway:abandoned:service") || t == STR("highway:abandoned") || t == STR("highway:bus_guideway") || t == STR("highway:bus_stop") || t == STR("highway:bus") || t == STR("highway:busway") || t == STR("highway:centre_line") || t == STR("highway:climbing_access") || t == STR("highway:common") || t == STR("highway:under construction") || t == STR("highway:construction") || t == STR("highway:constuction") || t == STR("highway:demolished") || t == STR("highway:dismantled") || t == STR("highway:disused:track") || t == STR("highway:disused") || t == STR("highway:duckboards") || t == STR("highway:emergency_access_point") || t == STR("highway:emergency_bay") || t == STR("highway:escalator") || t == STR("highway:escape") || t == STR("highway:foot") || t == STR("highway:fuel") || t == STR("highway:in planung") || t == STR("highway:island") || t == STR("highway:layby") || t == STR("highway:loading_place") || t == STR("highway:lohwiese") || t == STR("highway:never_built") || t == STR("highway:nicht mehr in benutzung") || t == STR("highway:no") || t == STR("highway:none") || t == STR("highway:p") || t == STR("highway:passing_place") || t == STR("highway:piste") || t == STR("highway:place") || t == STR("highway:planned") || t == STR("highway:platform") || t == STR("highway:private") || t == STR("highway:project") || t == STR("highway:projected") || t == STR("highway:proposed") || t == STR("highway:raceway") || t == STR("highway:razed") || t == STR("highway:removed") || t == STR("highway:rest_area") || t == STR("highway:ser") || t == STR("highway:sere") || t == STR("highway:services") || t == STR("highway:stop_line") || t == STR("highway:stop") || t == STR("highway:street_lamp") || t == STR("highway:tidal_path") || t == STR("highway:traffic_island") || t == STR("highway:traffic_signals") || t == STR("highway:turning_circle") || t == STR("highway:turning_loop") || t == STR("highway:unused") || t == STR("highway:via_ferrata") || t == STR("highway:virtual_rail")) { Err(false) }
    else { Err::<StreetCategory, bool>(true) } } } } } } } } } } } } } } } } } } } } }
proof fn c12_Motorway() ensures street(STR("highway:motorway")) == Ok::<StreetCategory, bool>(StreetCategory::Motorway) {}
proof fn c12_MotorwayLink() ensures street(STR("highway:motorway_link")) == Ok::<StreetCategory, bool>(StreetCategory::MotorwayLink) {}
proof fn c12_Trunk() ensures street(STR("highway:trunk")) == Ok::<StreetCategory, bool>(StreetCategory::Trunk) {}
proof fn c12_TrunkLink() ensures street(STR("highway:trunk_link")) == Ok::<StreetCategory, bool>(StreetCategory::TrunkLink) {}
proof fn c12_Primary() ensures street(STR("highway:primary")) == Ok::<StreetCategory, bool>(StreetCategory::Primary) {}
proof fn c12_PrimaryLink() ensures street(STR("highway:primary_link")) == Ok::<StreetCategory, bool>(StreetCategory::PrimaryLink) {}
proof fn c12_Secondary() ensures street(STR("highway:secondary")) == Ok::<StreetCategory, bool>(StreetCategory::Secondary) {}
proof fn c12_SecondaryLink() ensures street(STR("highway:secondary_link")) == Ok::<StreetCategory, bool>(StreetCategory::SecondaryLink) {}
proof fn c12_Tertiary() ensures street(STR("highway:tertiary")) == Ok::<StreetCategory, bool>(StreetCategory::Tertiary) {}
proof fn c12_TertiaryLink() ensures street(STR("highway:tertiary_link")) == Ok::<StreetCategory, bool>(StreetCategory::TertiaryLink) {}
proof fn c12_Unclassified() ensures street(STR("highway:unclassified")) == Ok::<StreetCategory, bool>(StreetCategory::Unclassified) {}
proof fn c12_Residential() ensures street(STR("highway:residential")) == Ok::<StreetCategory, bool>(StreetCategory::Residential) {}
proof fn c12_LivingStreet() ensures street(STR("highway:living_street")) == Ok::<StreetCategory, bool>(StreetCategory::LivingStreet) {}
proof fn c12_Service() ensures street(STR("highway:service")) == Ok::<StreetCategory, bool>(StreetCategory::Service) {}
proof fn c12_Track() ensures street(STR("highway:track")) == Ok::<StreetCategory, bool>(StreetCategory::Track) {}
proof fn c12_Road() ensures street(STR("highway:road")) == Ok::<StreetCategory, bool>(StreetCategory::Road) {}
proof fn c12_Cycleway() ensures street(STR("highway:cycleway")) == Ok::<StreetCategory, bool>(StreetCategory::Cycleway) {}
proof fn c12_Pedestrian() ensures street(STR("highway:pedestrian")) == Ok::<StreetCategory, bool>(StreetCategory::Pedestrian) {}
proof fn c12_Path() ensures street(STR("highway:path")) == Ok::<StreetCategory, bool>(StreetCategory::Path) {}
proof fn c12_oneway() ensures oneway(STR("yes")) == (true, false), oneway(STR("-1")) == (true, true), oneway(STR("no")) == (false, false) {}
proof fn must_fail_tags(t: int) ensures street(t) is Ok {}
