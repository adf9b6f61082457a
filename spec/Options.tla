------------------------------ MODULE Options ------------------------------
(* The option table of the documentation (docs/svgcleaner.rst, data/help.txt):
   what every command line argument controls, its default, and how an argument
   list resolves.  `given` is a function from argument names to value strings. *)
EXTENDS Integers, Sequences, TLC

\* argument |-> [set: setting it controls, inv: flag ON means setting FALSE, def: default]
FlagTable ==
  [ a \in {} |-> [set |-> "", inv |-> FALSE, def |-> TRUE] ]
  @@ ("remove-comments" :> [set |-> "parse_comments", inv |-> TRUE, def |-> TRUE])
  @@ ("remove-declarations" :> [set |-> "parse_declarations", inv |-> TRUE, def |-> TRUE])
  @@ ("remove-nonsvg-elements" :> [set |-> "parse_unknown_elements", inv |-> TRUE, def |-> TRUE])
  @@ ("remove-nonsvg-attributes" :> [set |-> "parse_unknown_attributes", inv |-> TRUE, def |-> TRUE])
  @@ ("remove-unresolved-classes" :> [set |-> "skip_unresolved_classes", inv |-> FALSE, def |-> TRUE])
  @@ ("remove-unused-defs" :> [set |-> "remove_unused_defs", inv |-> FALSE, def |-> TRUE])
  @@ ("convert-shapes" :> [set |-> "convert_shapes", inv |-> FALSE, def |-> TRUE])
  @@ ("remove-title" :> [set |-> "remove_title", inv |-> FALSE, def |-> TRUE])
  @@ ("remove-desc" :> [set |-> "remove_desc", inv |-> FALSE, def |-> TRUE])
  @@ ("remove-metadata" :> [set |-> "remove_metadata", inv |-> FALSE, def |-> TRUE])
  @@ ("remove-dupl-lineargradient" :> [set |-> "remove_dupl_linear_gradients", inv |-> FALSE, def |-> TRUE])
  @@ ("remove-dupl-radialgradient" :> [set |-> "remove_dupl_radial_gradients", inv |-> FALSE, def |-> TRUE])
  @@ ("remove-dupl-fegaussianblur" :> [set |-> "remove_dupl_fe_gaussian_blur", inv |-> FALSE, def |-> TRUE])
  @@ ("ungroup-groups" :> [set |-> "ungroup_groups", inv |-> FALSE, def |-> TRUE])
  @@ ("ungroup-defs" :> [set |-> "ungroup_defs", inv |-> FALSE, def |-> TRUE])
  @@ ("group-by-style" :> [set |-> "group_by_style", inv |-> FALSE, def |-> TRUE])
  @@ ("merge-gradients" :> [set |-> "merge_gradients", inv |-> FALSE, def |-> TRUE])
  @@ ("regroup-gradient-stops" :> [set |-> "regroup_gradient_stops", inv |-> FALSE, def |-> TRUE])
  @@ ("remove-invalid-stops" :> [set |-> "remove_invalid_stops", inv |-> FALSE, def |-> TRUE])
  @@ ("remove-invisible-elements" :> [set |-> "remove_invisible_elements", inv |-> FALSE, def |-> TRUE])
  @@ ("resolve-use" :> [set |-> "resolve_use", inv |-> FALSE, def |-> TRUE])
  @@ ("remove-version" :> [set |-> "remove_version", inv |-> FALSE, def |-> TRUE])
  @@ ("remove-unreferenced-ids" :> [set |-> "remove_unreferenced_ids", inv |-> FALSE, def |-> TRUE])
  @@ ("trim-ids" :> [set |-> "trim_ids", inv |-> FALSE, def |-> TRUE])
  @@ ("remove-text-attributes" :> [set |-> "remove_text_attributes", inv |-> FALSE, def |-> TRUE])
  @@ ("remove-unused-coordinates" :> [set |-> "remove_unused_coordinates", inv |-> FALSE, def |-> TRUE])
  @@ ("remove-default-attributes" :> [set |-> "remove_default_attributes", inv |-> FALSE, def |-> TRUE])
  @@ ("remove-xmlns-xlink-attribute" :> [set |-> "remove_xmlns_xlink_attribute", inv |-> FALSE, def |-> TRUE])
  @@ ("remove-needless-attributes" :> [set |-> "remove_needless_attributes", inv |-> FALSE, def |-> TRUE])
  @@ ("remove-gradient-attributes" :> [set |-> "remove_gradient_attributes", inv |-> FALSE, def |-> FALSE])
  @@ ("apply-transform-to-gradients" :> [set |-> "apply_transform_to_gradients", inv |-> FALSE, def |-> TRUE])
  @@ ("apply-transform-to-shapes" :> [set |-> "apply_transform_to_shapes", inv |-> FALSE, def |-> TRUE])
  @@ ("paths-to-relative" :> [set |-> "paths_to_relative", inv |-> FALSE, def |-> TRUE])
  @@ ("remove-unused-segments" :> [set |-> "remove_unused_segments", inv |-> FALSE, def |-> TRUE])
  @@ ("convert-segments" :> [set |-> "convert_segments", inv |-> FALSE, def |-> TRUE])
  @@ ("apply-transform-to-paths" :> [set |-> "apply_transform_to_paths", inv |-> FALSE, def |-> FALSE])
  @@ ("trim-paths" :> [set |-> "use_compact_path_notation", inv |-> FALSE, def |-> TRUE])
  @@ ("join-arcto-flags" :> [set |-> "join_arc_to_flags", inv |-> FALSE, def |-> FALSE])
  @@ ("remove-dupl-cmd-in-paths" :> [set |-> "remove_duplicated_path_commands", inv |-> FALSE, def |-> TRUE])
  @@ ("use-implicit-cmds" :> [set |-> "use_implicit_lineto_commands", inv |-> FALSE, def |-> TRUE])
  @@ ("trim-colors" :> [set |-> "trim_hex_colors", inv |-> FALSE, def |-> TRUE])
  @@ ("append-newline" :> [set |-> "append_newline", inv |-> FALSE, def |-> FALSE])
  @@ ("simplify-transforms" :> [set |-> "simplify_transform_matrices", inv |-> FALSE, def |-> TRUE])
Flags == DOMAIN FlagTable

\* the options that are not flags: they keep their defaults under --no-defaults
ValueTable ==
     ("join-style-attributes" :> [set |-> "join_style_attributes", def |-> "some", vals |-> {"no", "some", "all"}])
  @@ ("coordinates-precision" :> [set |-> "coordinates_precision", def |-> "6", vals |-> {ToString(i) : i \in 1..12}])
  @@ ("properties-precision" :> [set |-> "properties_precision", def |-> "6", vals |-> {ToString(i) : i \in 1..12}])
  @@ ("transforms-precision" :> [set |-> "transforms_precision", def |-> "8", vals |-> {ToString(i) : i \in 1..12}])
  @@ ("paths-coordinates-precision" :> [set |-> "paths_coordinates_precision", def |-> "8", vals |-> {ToString(i) : i \in 1..12}])
  @@ ("list-separator" :> [set |-> "list_separator", def |-> "space", vals |-> {"space", "comma", "comma-space"}])
  @@ ("indent" :> [set |-> "indent", def |-> "none", vals |-> {"none", "0", "1", "2", "3", "4", "tabs"}])
Values == DOMAIN ValueTable

\* settings no option controls
Fixed ==
     ("parse_px_unit" :> "false") @@ ("skip_invalid_attributes" :> "false") @@ ("skip_invalid_css" :> "false")
  @@ ("skip_paint_fallback" :> "false") @@ ("use_single_quote" :> "false")
  @@ ("write_hidden_attributes" :> "false") @@ ("remove_leading_zero" :> "true")

FlagValues == {"true", "false", "yes", "no", "y", "n"}
Truth(v) == v \in {"true", "yes", "y"}
Has0(f, x) == x \in DOMAIN f

\* is the flag on?  (its own default, or off under --no-defaults)
FlagOn(given, nodef, f) ==
  IF Has0(given, f) THEN Truth(given[f]) ELSE IF nodef THEN FALSE ELSE FlagTable[f].def
\* the combination checks look at the plain value of a flag, before --no-defaults
Plain0(given, f) == IF Has0(given, f) THEN Truth(given[f]) ELSE FlagTable[f].def

ValueOf(given, o) == IF Has0(given, o) THEN given[o] ELSE ValueTable[o].def

ValidValues(given) ==
  \A a \in DOMAIN given :
    \/ a \in Flags /\ given[a] \in FlagValues
    \/ a \in Values /\ given[a] \in ValueTable[a].vals

Needs == << <<"join-arcto-flags", "trim-paths">>, <<"remove-unused-segments", "paths-to-relative">>,
            <<"convert-segments", "paths-to-relative">>, <<"apply-transform-to-paths", "paths-to-relative">> >>
\* A combination is invalid when an option that is in effect needs a companion that was
\* given OFF; it is valid when no option that is on, under either reading of a flag that
\* was not given (its default, or off because of --no-defaults), has its companion off.
MustReject(given, nodef) ==
  \E i \in 1..Len(Needs) : FlagOn(given, nodef, Needs[i][1]) /\ Has0(given, Needs[i][2]) /\ ~Truth(given[Needs[i][2]])
MayReject(given, nodef) ==
  \E i \in 1..Len(Needs) :
    \/ Plain0(given, Needs[i][1]) /\ ~Plain0(given, Needs[i][2])
    \/ FlagOn(given, nodef, Needs[i][1]) /\ ~FlagOn(given, nodef, Needs[i][2])

\* where the input comes from and the output goes to: toStdout is -c/--stdout, pos the file arguments
IsSvgName(f) == f = "-" \/ (Len(f) >= 4 /\ SubSeq(f, Len(f) - 3, Len(f)) \in {".svg", ".SVG"})
ValidFiles(toStdout, pos) == Len(pos) \in (IF toStdout THEN 1..2 ELSE {2}) /\ \A i \in 1..Len(pos) : IsSvgName(pos[i])
Io(toStdout, pos) ==
  LET stdin == (toStdout /\ pos[1] = "-") \/ (Len(pos) = 2 /\ pos[2] = "-")
      file(f) == "File(\"" \o f \o "\")"
  IN (IF stdin THEN "Stdin" ELSE file(pos[1])) \o " -> " \o
     (IF toStdout THEN "Stdout" ELSE IF pos[2] = "-" THEN file(pos[1]) ELSE file(pos[2]))

BoolStr(b) == IF b THEN "true" ELSE "false"
Resolve(given, nodef) ==
  Fixed
  @@ [s \in {FlagTable[f].set : f \in Flags} |->
        LET f == CHOOSE x \in Flags : FlagTable[x].set = s
        IN BoolStr(FlagOn(given, nodef, f) # FlagTable[f].inv)]
  @@ [s \in {ValueTable[o].set : o \in Values} |->
        LET o == CHOOSE x \in Values : ValueTable[x].set = s IN ValueOf(given, o)]
=============================================================================
