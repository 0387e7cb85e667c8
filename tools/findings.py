import json,subprocess
T='''3759488 C23 string_order|comparing a string with a longer string that starts with it (helper used for sorting) did not order the shorter one first, so the order was not strict
91015ad C23 vector_angle|Vector2d::Angle returned exactly 360 for a vector an ulp below the x axis
542533e C04 copied_polynomial|copies of a Polynomial shared the owned derivative pointer; destroying one left the other reading freed memory and deleted it twice
cc7e5f4 C06 structure_points|structure points of a line were not recomputed after a structure was modified
6eb3153 C04 copied_line|a copied TransmissionLine kept the cached points of its source instead of solving its own
32c1757 C05 line_cable_order|line cables were not kept sorted by starting structure and attachment
7a495a7 C05 modify_structure|ModifyLineStructure accepted a station beyond the end of the alignment
0484b63 C05 empty_alignment|an alignment whose points were all deleted was read out of range
a12938f C06 single_point|locating structures on an alignment with one point read past the end
e28523e C05 connection_hardware|a line cable connection without the hardware its type needs was dereferenced as if it were there
569b20b C05 null_structure|structure indexes and line structures that reference nothing were dereferenced
44b5ab0 C07 span_index|a cable span index equal to the number of spans was accepted and read out of range
845ca84 C21 position_validate|validation of cable positions continued past an unset input and dereferenced it
90d025e C07 swing_side|suspension hardware swung to different sides for the same line rotated or with the turn mirrored
0660682 C02 failure_repeated|a solve that ended in an invalid catenary was reported as a success on the second read
2c5afb1 C02 one_sided_bracket|solvable targets between the first two points of the search were reported as unsolvable
037c5bf C07 unequal_longitudinal|cables whose suspensions carry unequal longitudinal loads were reported as not locatable
89262ff C10 stretch_state_curve|changing the state curve of a component kept the stretch transferred for the previous curve
5b3112d C10 load_scale|the strain of a component ignored the load scale of its polynomial
dee032c C10 beyond_polynomial|a component stretched beyond its polynomial did not follow the extrapolated curve
5c87239 C10 negative_stretch|the stretch of a component was transferred to a negative load
c8d7469 C10 load_precision|the strain was solved to a load precision that depended on the load scale
09d34f8 C10 transfer_curves|no transferred stretch was found for some pairs of curves
9bf6c23 C11 compression|the combined strain was not defined below the components' free strain although a component can be compressed
627cfd2 C11 coincident_regions|combined strain at coincident region points divided by zero
1c1ce5a C11 compressed_stretch|a component that is compressed at the stretch load was stretched all the same
15fa0a5 C11 validate_changes_stretch|validating the elongation model changed the component stretch it reported afterwards
c7b757c C04 copied_elongation_model|the components of a copied elongation model pointed at the states of the source
0eef56c C11 stalled_tangent|the combined strain search stalled on a tangent line and reported no answer
af527aa C11 no_polynomial_region|a component stretched beyond its polynomial kept a polynomial region of negative width
2c70f4c C15 length_sag_constraint|line cables constrained by length or sag could not be sagged
9951457 C15 controlling_constraint|the controlling constraint was not found for tensions beyond the starting limits
48a64c6 C22 constraint_index|a design constraint index that does not exist was read out of range
fe5efd6 C22 no_constraints|a sagger without any design constraint read an empty list
92d1ca3 C13 exact_length|a reloaded tension that matches the cable length exactly was reported as a failure
b2842c6 C16 span_direction|sag corrections took the span length along the x axis only
a70bc96 C22 corrector_not_set|validating a sag position corrector that is not set up dereferenced null
6a446de C17 local_low_points|the transit sighted a local low point of the control line that was not the lowest
3fc4a13 C22 transit_position|a transit without a position was solved
9d80e54 C21 stopwatch_units|a stopwatch without a unit system validated as complete
f95e21f C18 resistance_points|resistance was interpolated between points that do not bound the temperature
57d8a5f C18 colder_than_air|convection of a cable colder than the air was not a number
cc279f8 C18 units_or_weather|changing units or weather kept the previous solution of the steady cable
81e608d C18 bracketed_temperature|the temperature search left its bracket and reported no or a wrong temperature
a12484a C19 no_start_temperature|a transient cable without a steady starting temperature reported a history all the same
c4372c8 C20 noon_north|the sun was placed due south at noon although it passes north of the zenith
2633b2a C20 zenith|the azimuth of a sun at the zenith was not a number
ae34904 C20 night|solar radiation was reported while the sun is below the horizon
cb9a6fb C06 doubles_back|a structure on a line that doubles back was not square to it
fb1ede9 C04 copied_loader|a copied line cable loader still referred to the cable of its source
d0cd998 C22 cable_without_base|properties of a sag-tension cable without a base cable dereferenced null
97cc561 C22 component_before_defined|enabling a component before it is defined dereferenced null
b3d8baa C22 component_model_unset|a component elongation model with unset inputs was updated
9b77932 C22 elongation_model_unset|an elongation model without a cable was updated
4ed8149 C22 strainer_unset|a strainer without elongation models validated as complete and dereferenced null
912b93a C22 unloader_unset|the catenary unloader dereferenced an unset catenary
7bfecc4 C22 reloader_unset|the catenary reloader reloaded with unset inputs
1808dac C22 no_coefficients|solving a polynomial without coefficients read an empty list
a3ef66e C22 heat_unset|heat transfer with unset inputs dereferenced null
3eda10b C22 temperature_invalid|the cable temperature solvers updated with invalid inputs (endless loop)
71a5c22 C22 wave_overflow|a huge wave count or hour overflowed a signed integer
dcdb9d4 C22 load_unset|a cable with unset properties was loaded
6150c17 C22 line_load_unset|a line cable with unset inputs was loaded
eb577e3 C22 sag_unset|a line cable with unset inputs was sagged
58f1881 C22 corrector_unset|cable positions with unset inputs were corrected
f8972e8 C22 equilibrium_unset|an attachment with unset inputs was balanced
4f23439 C22 off_alignment|the attachment of a structure that is off the alignment was located
eaa59bb C22 no_enabled_component|a cable without an enabled component was strained
ae39ca7 C21 invalid_part|a stretch state or structure with an invalid part was accepted
651f32e C21 loader_message|a line cable loader was rejected without any message
0648eeb C21 connection_structure|a line cable connection without a structure was accepted
b236c90 C21 slope_checked|the slope of only part of the polynomial was checked
fb36192 C21 limit_polynomial|cables were warned about limits of another polynomial than the one evaluated
f3e3dfb C05 own_element|replacing an element by a reference to an element of the same line read it after deleting it
978cc3c C07 balance|the located hardware was left pointing against a small cable force that reversed in the last move (imbalance 9 to 122, promised 5)'''
out=[]
for l in T.splitlines():
    a,w=l.split('|'); h,p,k=a.split()
    out.append({'property':p,'status':'fixed','key':'fixed_'+k,'commit':h,'what':'fixed: property=%s %s %s'%(p,h,w)})
log=subprocess.check_output(['git','-C','/repo','log','--format=%h','a5679eb..HEAD'],text=True).split()
assert set(log)=={o['commit'] for o in out},set(log)^{o['commit'] for o in out}
open('/verif/known_findings.json','w').write('{"findings": [\n'+',\n'.join(json.dumps(o) for o in out)+'\n]}\n')
