"""C19: groups of analyses account for fuel, mass, power and forces."""
from .. import data
from ..contracts import groups


def main():
    return data.run_cases('C19', groups.cases(), ['up to three main and three reserve phases', 'the assembled missions are those listed in vc/contracts/groups.py; the phases themselves are unknown functions', 'interpolated maps are unknown functions', 'OpenMDAO resolves promotions and connections as its set-up reports them'], 700,
                          ['aviary.subsystems.energy.fuel_summation.FuelSummationGroup', 'aviary.mission.utils.separate_reserve_phases',
                           'aviary.subsystems.energy.energy_builder.CoreEnergyBuilder.get_post_mission_bus_variables', 'aviary.core.aviary_group.AviaryGroup._connect_mission_bus_variables',
                           'aviary.subsystems.energy.battery_builder.BatteryBuilder.build_mission', 'aviary.subsystems.propulsion.gearbox.model.gearbox_mission.GearboxMission',
                           'aviary.subsystems.propulsion.gearbox.model.gearbox_premission.GearboxPreMission', 'aviary.subsystems.propulsion.motor.model.motor_map.MotorMap',
                           'aviary.subsystems.propulsion.motor.model.motor_mission.MotorMission', 'aviary.subsystems.propulsion.motor.model.motor_premission.MotorPreMission',
                           'aviary.subsystems.propulsion.utils.UncorrectData', 'aviary.subsystems.aerodynamics.flops_based.drag.TotalDrag', 'aviary.subsystems.aerodynamics.solve_alpha_group.SolveAlphaGroup',
                           'aviary.mission.energy_state.phases.simplified_takeoff.TakeoffGroup', 'aviary.mission.two_dof.ode.two_dof_ode.TwoDOFODE.add_alpha_control',
                           'expression components of the assembled model: aviary.core.aviary_group, aviary.mission.*_problem_configurator'])
