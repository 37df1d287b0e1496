use unic::ucd::*; use unic::char::property::*;
use std::io::Write;
fn main(){
 let o=std::io::stdout(); let mut o=std::io::BufWriter::new(o.lock());
 for c in (0..0x110000u32).filter_map(std::char::from_u32){
  let b=|x:bool| if x {"1"} else {"0"};
  let mut can=String::new(); if let Some(s)=normal::canonical_decomposition(c){for x in s{can+=&format!("{:04X} ",*x as u32);}}
  let mut com=String::new(); if let Some(s)=normal::compatibility_decomposition(c){for x in s{com+=&format!("{:04X} ",*x as u32);}}
  let v=vec![format!("{:X}",c as u32),GeneralCategory::of(c).abbr_name().to_string(),BidiClass::of(c).abbr_name().to_string(),CanonicalCombiningClass::of(c).number().to_string(),
   b(bidi::is_bidi_mirrored(c)).into(),normal::DecompositionType::of(c).map(|d|d.long_name().to_string()).unwrap_or("-".into()),can,com,Name::of(c).map(|n|n.to_string()).unwrap_or("-".into()),
   Age::of(c).map(|a|{let v=a.actual();format!("{}.{}.{}",v.major,v.minor,v.micro)}).unwrap_or("-".into()),
   Block::of(c).map(|b|b.name.to_string()).unwrap_or("-".into()),
   b(Alphabetic::of(c).as_bool()).into(),b(common::is_alphanumeric(c)).into(),b(common::is_control(c)).into(),b(common::is_numeric(c)).into(),b(WhiteSpace::of(c).as_bool()).into(),
   b(Lowercase::of(c).as_bool()).into(),b(Uppercase::of(c).as_bool()).into(),b(Cased::of(c).as_bool()).into(),b(CaseIgnorable::of(c).as_bool()).into(),
   b(ChangesWhenLowercased::of(c).as_bool()).into(),b(ChangesWhenUppercased::of(c).as_bool()).into(),b(ChangesWhenTitlecased::of(c).as_bool()).into(),b(ChangesWhenCasefolded::of(c).as_bool()).into(),b(ChangesWhenCasemapped::of(c).as_bool()).into(),
   GraphemeClusterBreak::of(c).abbr_name().into(),WordBreak::of(c).abbr_name().into(),SentenceBreak::of(c).abbr_name().into(),
   b(unic_ucd_ident::is_id_start(c)).into(),b(unic_ucd_ident::is_id_continue(c)).into(),b(unic_ucd_ident::is_xid_start(c)).into(),b(unic_ucd_ident::is_xid_continue(c)).into(),b(unic_ucd_ident::is_pattern_syntax(c)).into(),b(unic_ucd_ident::is_pattern_whitespace(c)).into(),
   b(unic::emoji::char::is_emoji(c)).into(),b(unic::emoji::char::is_emoji_presentation(c)).into(),b(unic::emoji::char::is_emoji_modifier(c)).into(),b(unic::emoji::char::is_emoji_modifier_base(c)).into(),b(unic::emoji::char::is_emoji_component(c)).into(),
   b(bidi::is_bidi_control(c)).into(), format!("{:?}",unic_idna_mapping::Mapping::of(c)), b(normal::is_combining_mark(c)).into(), format!("{:?}",unic_ucd_name_aliases::NameAliasType::of(c)),
   {use unic_ucd_name_aliases::*; use NameAliasType::*; format!("{:?}",[NameCorrections,ControlCodeNames,AlternateNames,Figments,NameAbbreviations].iter().filter(|t| name_aliases_of(c,**t).map(|s|s.len()>0)==Some(true)).collect::<Vec<_>>())},
  ];
  writeln!(o,"{}",v.join("\t")).unwrap();
 }
}
