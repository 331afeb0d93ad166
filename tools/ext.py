"""Hand-made deviations of the Python classes from the ecore models, each
reconciled by reading the class and its tests (see DESIGN.md, 'Schema oracle')."""
def apply(g):
    att, ref, new, drop, cls, F = (g[k] for k in ('att', 'ref', 'new', 'drop', 'cls', 'F'))
    PH = ['C', 'N', 's1', 'B', 's2', 'A']
    # CIM14.ENTSOE.Dynamics.Thing: a UML role whose name is not an identifier
    drop('CIM14.ENTSOE.Dynamics.Thing', 'EAID_4B45E775_795A_4030_865F_0AB320000DDD-B')
    # BaseVoltage -- TransformerEnd
    ref(F+'Core.BaseVoltage', 'TransformerEnd', True, F+'Wires.TransformerEnd', 'BaseVoltage')
    ref(F+'Wires.TransformerEnd', 'BaseVoltage', False, F+'Core.BaseVoltage', 'TransformerEnd')
    # Equipment -- OperationalLimitSet
    ref(F+'Core.Equipment', 'OperationalLimitSet', True, F+'OperationalLimits.OperationalLimitSet', 'Equipment')
    ref(F+'OperationalLimits.OperationalLimitSet', 'Equipment', False, F+'Core.Equipment', 'OperationalLimitSet')
    # EnergyConsumerPhase
    k = F+'WiresPhaseModel.EnergyConsumerPhase'
    att(k, 'phase', 'str', None, 'SinglePhaseKind', PH)
    att(k, 'pfixed', 'float', 0.0); att(k, 'qfixed', 'float', 0.0)
    # ACLineSegmentPhase
    new(F+'WiresPhaseModel', 'ACLineSegmentPhase', F+'Core.PowerSystemResource')
    k = F+'WiresPhaseModel.ACLineSegmentPhase'
    att(k, 'phase', 'str', None, 'SinglePhaseKind', PH)
    ref(k, 'ACLineSegment', False, F+'Wires.ACLineSegment', 'ACLineSegmentPhases')
    ref(F+'Wires.ACLineSegment', 'ACLineSegmentPhases', True, k, 'ACLineSegment')
    # CurrentTemperatureCurve
    new(F+'Wires', 'CurrentTemperatureCurve', F+'Core.Curve')
    k = F+'Wires.CurrentTemperatureCurve'
    ref(k, 'ACLineSegments', True, F+'Wires.ACLineSegment', 'CurrentTemperatureCurves')
    ref(F+'Wires.ACLineSegment', 'CurrentTemperatureCurves', True, k, 'ACLineSegments')
    # operational limits
    o = F+'OperationalLimits'
    new(o, 'CheckPoint', F+'Core.IdentifiedObject'); ref(o+'.CheckPoint', 'Equipment', False, F+'Core.Equipment', None)
    new(o, 'VoltageTimeCurve', F+'Core.Curve')
    new(o, 'VoltageCheckPoint', o+'.CheckPoint')
    ref(o+'.VoltageCheckPoint', 'LowerLimitsCurve', False, o+'.VoltageTimeCurve', None)
    ref(o+'.VoltageCheckPoint', 'UpperLimitsCurve', False, o+'.VoltageTimeCurve', None)
    ref(o+'.VoltageCheckPoint', 'VoltageLimitSet', False, F+'OperationalLimits.OperationalLimitSet', None)
    # the general view of a line's per-length impedance; the two UML roles are views of it too
    cls(F+'Wires.ACLineSegment')['refs'].append(dict(n='PerLengthImpedance', many=False,
        tgt=F+'Wires.PerLengthSequenceImpedance', opp='LineSegments', view=True))
