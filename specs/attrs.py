"""Specification tables: attributes (observer, setters, per-variant?) and class invariants over observer values."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vc'))
from vals import *
from contract import num, gt0, ge0, le, NS

PV, CONST = True, False


class Cls:
    def __init__(self, name, attrs, inv=None, acc=None, ctx=None, pre=None, globs='CORE', bare=False, eqv=None, quick=True):
        """attrs: list of (observer, [setters], per_variant); inv(o)->dict name->cond over observer values; acc: {setter: f(o,x)->extra acceptance};
        eqv: {observer: f(ex, ctx, obj, x) -> expected observed value after setting x}"""
        self.name = NS + name; self.attrs = attrs; self.inv = inv or (lambda o: {}); self.acc = acc or {}; self.ctx = ctx; self.pre = pre; self.globs = globs; self.eqv = eqv or {}


def nums(*ns):
    return lambda o: {n: num(o[n]) for n in ns}


def both(*fs):
    def f(o):
        d = {}
        for g in fs: d.update(g(o))
        return d
    return f


def S(getter, *setters): return (getter, list(setters), False)


def V(getter, *setters): return (getter, list(setters), True)


FICT = S('isFictitious', 'setFictitious')


def vreg(on, v, q):
    return lambda o: {'voltage set point of an active regulation is > 0': Implies(o[on], gt0(o[v])), 'reactive set point set when not regulating': Implies(Not(o[on]), num(o[q]))}


def ratedS(o): return {'rated S undefined or > 0': Or(o['getRatedS'].nan, o['getRatedS'].v > 0)}


LINE6 = ['getR', 'getX', 'getG1', 'getG2', 'getB1', 'getB2']


def line6(): return [S(g, 's' + g[1:]) for g in LINE6]


def enumv(tk, name, ex):
    """value of an enumerator by name"""
    for n, v in ex.T(tk)['vals']:
        if n == name: return v
    raise Unsup('enumerator %s of %s' % (name, tk))


CT = NS + 'ConnectableType'


def termctx(ctx, obj):
    ex = ctx.ex
    c = ctx.call(obj, 'getConnectable', const=True)
    ex.nonnull(c)
    ty = ctx.call(Place(('o', c)), 'getType', cls=NS + 'Connectable')
    return dict(ctype=ty)


def term_inv(ex):
    return lambda o: {'no active power on a shunt compensator': Implies(Eq(o['ctype'], enumv(CT, 'SHUNT_COMPENSATOR', ex)), o['getP'].nan)}


def term_acc(ex):
    nb = lambda o, x: Not(Eq(o['ctype'], enumv(CT, 'BUSBAR_SECTION', ex)))
    return {'setP': nb, 'setQ': nb}


def samenet(ctx, t):
    """terminal reference t is null or belongs to the network of the object"""
    return Or(Eq(t, NULL), ctx.net_of(t) == ctx.NET)


def classes():
    L = []
    a = L.append
    a(Cls('Battery', [V('getP0', 'setP0'), V('getQ0', 'setQ0'), S('getMinP', 'setMinP'), S('getMaxP', 'setMaxP'), FICT],
          lambda o: {'p0': num(o['getP0']), 'q0': num(o['getQ0']), 'minP': num(o['getMinP']), 'maxP': num(o['getMaxP']), 'minP <= maxP': le(o['getMinP'], o['getMaxP'])}))
    a(Cls('DanglingLine', [V('getP0', 'setP0'), V('getQ0', 'setQ0'), S('getR', 'setR'), S('getX', 'setX'), S('getG', 'setG'), S('getB', 'setB'), FICT], nums('getP0', 'getQ0', 'getR', 'getX', 'getG', 'getB')))
    a(Cls('dangling_line::Generation', [V('getTargetP', 'setTargetP'), V('getTargetQ', 'setTargetQ'), V('getTargetV', 'setTargetV'), V('isVoltageRegulationOn', 'setVoltageRegulationOn'), S('getMinP', 'setMinP'), S('getMaxP', 'setMaxP')],
          both(lambda o: {'targetP': num(o['getTargetP']), 'minP': num(o['getMinP']), 'maxP': num(o['getMaxP']), 'minP <= maxP': le(o['getMinP'], o['getMaxP'])}, vreg('isVoltageRegulationOn', 'getTargetV', 'getTargetQ'))))
    a(Cls('Generator', [V('getTargetP', 'setTargetP', 'setActivePowerSetpoint'), V('getTargetQ', 'setTargetQ', 'setReactivePowerSetpoint'), V('getTargetV', 'setTargetV', 'setVoltageSetpoint'), V('isVoltageRegulatorOn', 'setVoltageRegulatorOn'),
                        S('getMinP', 'setMinP'), S('getMaxP', 'setMaxP'), S('getRatedS', 'setRatedS'), S('getEnergySource', 'setEnergySource'), S('getRegulatingTerminal', 'setRegulatingTerminal'), FICT],
          both(lambda o: {'targetP': num(o['getTargetP']), 'minP': num(o['getMinP']), 'maxP': num(o['getMaxP']), 'minP <= maxP': le(o['getMinP'], o['getMaxP'])}, vreg('isVoltageRegulatorOn', 'getTargetV', 'getTargetQ'), ratedS),
          acc={'setRegulatingTerminal': 'samenet'}, eqv={'getRegulatingTerminal': 'ownterminal'}))
    a(Cls('HvdcLine', [V('getActivePowerSetpoint', 'setActivePowerSetpoint'), V('getConvertersMode', 'setConvertersMode'), S('getMaxP', 'setMaxP'), S('getNominalV', 'setNominalV'), S('getR', 'setR'), FICT],
          lambda o: {'active power set point >= 0': ge0(o['getActivePowerSetpoint']), 'maxP >= 0': ge0(o['getMaxP']), 'nominal voltage > 0': gt0(o['getNominalV']), 'r': num(o['getR'])}))

    def loss(o): return {'loss factor within [0, 100]': And(ge0(o['getLossFactor']), o['getLossFactor'].v <= 100)}
    a(Cls('LccConverterStation', [S('getLossFactor', 'setLossFactor'), S('getPowerFactor', 'setPowerFactor'), FICT],
          both(loss, lambda o: {'power factor within [-1, 1]': And(num(o['getPowerFactor']), o['getPowerFactor'].v <= 1, o['getPowerFactor'].v >= -1)})))
    a(Cls('VscConverterStation', [S('getLossFactor', 'setLossFactor'), V('getReactivePowerSetpoint', 'setReactivePowerSetpoint'), V('getVoltageSetpoint', 'setVoltageSetpoint'), V('isVoltageRegulatorOn', 'setVoltageRegulatorOn'), FICT],
          both(loss, vreg('isVoltageRegulatorOn', 'getVoltageSetpoint', 'getReactivePowerSetpoint'))))
    a(Cls('Line', line6() + [FICT], nums(*LINE6)))
    a(Cls('tie_line::HalfLine', line6() + [S('isFictitious', 'setFictitious')], nums(*LINE6)))
    a(Cls('TieLine', [(g, ['s' + g[1:]], 'never') for g in LINE6]))
    a(Cls('Load', [V('getP0', 'setP0'), V('getQ0', 'setQ0'), S('getLoadType', 'setLoadType'), FICT], nums('getP0', 'getQ0')))
    for c in ('CurrentLimits', 'ActivePowerLimits', 'ApparentPowerLimits'):
        a(Cls(c, [S('getPermanentLimit', 'setPermanentLimit')], lambda o: {'permanent limit undefined or > 0': Or(o['getPermanentLimit'].nan, o['getPermanentLimit'].v > 0)}))
    a(Cls('ShuntCompensator', [V('getSectionCount', 'setSectionCount'), V('getTargetV', 'setTargetV'), V('getTargetDeadband', 'setTargetDeadband'), V('isVoltageRegulatorOn', 'setVoltageRegulatorOn'), S('getRegulatingTerminal', 'setRegulatingTerminal'),
                               S('getMaximumSectionCount'), FICT],
          lambda o: {'section count within [0, maximum]': o['getSectionCount'] <= o['getMaximumSectionCount'], 'maximum section count > 0': o['getMaximumSectionCount'] >= 1,
                     'target voltage of an active regulation > 0': Implies(o['isVoltageRegulatorOn'], gt0(o['getTargetV'])),
                     'dead band not negative, defined when regulating': And(Or(o['getTargetDeadband'].nan, o['getTargetDeadband'].v >= 0), Implies(o['isVoltageRegulatorOn'], num(o['getTargetDeadband'])))},
          acc={'setRegulatingTerminal': 'samenet'}, eqv={'getRegulatingTerminal': 'ownterminal'}))
    a(Cls('ShuntCompensatorNonLinearModel::Section', [S('getB', 'setB'), S('getG', 'setG')], nums('getB', 'getG')))
    a(Cls('StaticVarCompensator', [S('getBmin', 'setBmin'), S('getBmax', 'setBmax'), V('getVoltageSetpoint', 'setVoltageSetpoint'), V('getReactivePowerSetpoint', 'setReactivePowerSetpoint'), V('getRegulationMode', 'setRegulationMode'), S('getRegulatingTerminal', 'setRegulatingTerminal'), FICT],
          'svc', acc={'setRegulatingTerminal': 'samenet'}, eqv={'getRegulatingTerminal': 'ownterminal'}))
    a(Cls('Switch', [V('isOpen', 'setOpen'), V('isRetained', 'setRetained'), S('isFictitious', 'setFictitious')], acc={'setRetained': 'nodebreaker'}))
    a(Cls('BusTerminal', [V('getP', 'setP'), V('getQ', 'setQ'), V('isConnected', 'setConnected'), V('getConnectableBusId', 'setConnectableBusId')], 'term', acc='term', ctx=termctx))
    a(Cls('NodeTerminal', [V('getP', 'setP'), V('getQ', 'setQ'), V('getV', 'setV'), V('getAngle', 'setAngle'), V('getConnectedComponentNumber', 'setConnectedComponentNumber'), V('getSynchronousComponentNumber', 'setSynchronousComponentNumber')], 'termv', acc='term', ctx=termctx))
    a(Cls('ConfiguredBus', [V('getV', 'setV'), V('getAngle', 'setAngle'), V('getTerminalCount'), FICT], lambda o: {'voltage not negative': Or(o['getV'].nan, o['getV'].v >= 0)}))
    a(Cls('TwoWindingsTransformer', [S('getR', 'setR'), S('getX', 'setX'), S('getG', 'setG'), S('getB', 'setB'), S('getRatedU1', 'setRatedU1'), S('getRatedU2', 'setRatedU2'), S('getRatedS', 'setRatedS'), FICT],
          both(nums('getR', 'getX', 'getG', 'getB', 'getRatedU1', 'getRatedU2'), ratedS)))
    a(Cls('three_windings_transformer::Leg', [S('getR', 'setR'), S('getX', 'setX'), S('getG', 'setG'), S('getB', 'setB'), S('getRatedU', 'setRatedU'), S('getRatedS', 'setRatedS')],
          both(nums('getR', 'getX', 'getG', 'getB', 'getRatedU'), ratedS)))

    def vl(o):
        lo, hi = o['getLowVoltageLimit'], o['getHighVoltageLimit']
        return {'nominal voltage > 0': gt0(o['getNominalV']), 'low limit not negative': Or(lo.nan, lo.v >= 0), 'high limit not negative': Or(hi.nan, hi.v >= 0), 'low <= high': Or(lo.nan, hi.nan, lo.v <= hi.v)}
    for c in ('BusBreakerVoltageLevel', 'NodeBreakerVoltageLevel'):
        a(Cls(c, [S('getNominalV', 'setNominalV'), S('getLowVoltageLimit', 'setLowVoltageLimit'), S('getHighVoltageLimit', 'setHighVoltageLimit'), FICT], vl))
    a(Cls('PhaseTapChanger', [V('getTapPosition', 'setTapPosition'), V('isRegulating', 'setRegulating'), V('getTargetDeadband', 'setTargetDeadband'), V('getRegulationValue', 'setRegulationValue'),
                              S('getRegulationMode', 'setRegulationMode'), S('getRegulationTerminal', 'setRegulationTerminal'), S('getLowTapPosition'), S('getHighTapPosition'), S('getStepCount')], 'ptc', pre='tap', acc={'setRegulationTerminal': 'samenet'}))
    a(Cls('RatioTapChanger', [V('getTapPosition', 'setTapPosition'), V('isRegulating', 'setRegulating'), V('getTargetDeadband', 'setTargetDeadband'), V('getTargetV', 'setTargetV'),
                              S('hasLoadTapChangingCapabilities', 'setLoadTapChangingCapabilities'), S('getRegulationTerminal', 'setRegulationTerminal'), S('getLowTapPosition'), S('getHighTapPosition'), S('getStepCount')], 'rtc', pre='tap', acc={'setRegulationTerminal': 'samenet'}))
    for c in ('PhaseTapChangerStep', 'RatioTapChangerStep'):
        a(Cls(c, [S('getR', 'setR'), S('getX', 'setX'), S('getG', 'setG'), S('getB', 'setB'), S('getRho', 'setRho')] + ([S('getAlpha', 'setAlpha')] if c[0] == 'P' else [])))
    a(Cls('Network', [S('getForecastDistance', 'setForecastDistance'), S('getCaseDate', 'setCaseDate'), FICT], lambda o: {'forecast distance not negative': o['getForecastDistance'] >= 0}))
    a(Cls('Substation', [S('getTso', 'setTso'), S('getCountry', 'setCountry'), FICT]))
    a(Cls('ShuntCompensatorLinearModel', [S('getBPerSection', 'setBPerSection'), S('getGPerSection', 'setGPerSection'), S('getMaximumSectionCount', 'setMaximumSectionCount')],
          lambda o: {'b per section': num(o['getBPerSection']), 'maximum section count > 0': o['getMaximumSectionCount'] >= 1, 'section count within the maximum': o['sections'] <= o['getMaximumSectionCount']}, ctx='linear'))
    # ---- extensions
    e = dict(globs='EXT')
    pw = ['getFixedActivePower', 'getFixedReactivePower', 'getVariableActivePower', 'getVariableReactivePower']
    a(Cls('extensions::LoadDetail', [V(g, 's' + g[1:]) for g in pw], nums(*pw), **e))
    a(Cls('extensions::SlackTerminal', [V('getTerminal', 'setTerminal')], acc={'setTerminal': 'ownlevel'}, **e))
    m01 = lambda o: {'rdp in [0, 1]': And(ge0(o['getRdp']), o['getRdp'].v <= 1), 'xdp in [0, 1]': And(ge0(o['getXdp']), o['getXdp'].v <= 1), 'code not empty': Not(Eq(o['getCode'], lit('')))}
    a(Cls('extensions::entsoe::MergedXnode', [S(g, 's' + g[1:]) for g in ('getRdp', 'getXdp', 'getXnodeP1', 'getXnodeQ1', 'getXnodeP2', 'getXnodeQ2', 'getLine1Name', 'getLine2Name', 'getCode')],
          both(m01, nums('getXnodeP1', 'getXnodeQ1', 'getXnodeP2', 'getXnodeQ2')), **e))
    a(Cls('extensions::entsoe::Xnode', [S('getCode', 'setCode')], lambda o: {'code not empty': Not(Eq(o['getCode'], lit('')))}, **e))
    a(Cls('extensions::entsoe::EntsoeArea', [S('getCode', 'setCode')], **e))
    a(Cls('extensions::iidm::ActivePowerControl', [S('getDroop', 'setDroop'), S('isParticipate', 'setParticipate')], **e))
    a(Cls('extensions::iidm::CoordinatedReactiveControl', [S('getQPercent', 'setQPercent')], nums('getQPercent'), **e))
    a(Cls('extensions::iidm::HvdcAngleDroopActivePowerControl', [S('getDroop', 'setDroop'), S('getP0', 'setP0'), S('isEnabled', 'setEnabled')], nums('getDroop', 'getP0'), **e))
    nn = lambda g: (lambda o: {g + ' undefined or >= 0': Or(o[g].nan, o[g].v >= 0)})
    a(Cls('extensions::iidm::HvdcOperatorActivePowerRange', [S('getOprFromCS1toCS2', 'setOprFromCS1toCS2'), S('getOprFromCS2toCS1', 'setOprFromCS2toCS1')], both(nn('getOprFromCS1toCS2'), nn('getOprFromCS2toCS1')), **e))
    pac = lambda g: (lambda o: {'phase angle clock <= 11': o[g] <= 11})
    a(Cls('extensions::iidm::ThreeWindingsTransformerPhaseAngleClock', [S('getPhaseAngleClockLeg2', 'setPhaseAngleClockLeg2'), S('getPhaseAngleClockLeg3', 'setPhaseAngleClockLeg3')],
          lambda o: {'leg 2 clock <= 11': o['getPhaseAngleClockLeg2'] <= 11, 'leg 3 clock <= 11': o['getPhaseAngleClockLeg3'] <= 11}, **e))
    a(Cls('extensions::iidm::TwoWindingsTransformerPhaseAngleClock', [S('getPhaseAngleClock', 'setPhaseAngleClock')], pac('getPhaseAngleClock'), **e))
    a(Cls('extensions::iidm::VoltagePerReactivePowerControl', [S('getSlope', 'setSlope')], lambda o: {'slope >= 0': ge0(o['getSlope'])}, **e))
    a(Cls('extensions::sld::BranchStatus', [S('getStatus', 'setStatus')], **e))
    a(Cls('extensions::sld::BusbarSectionPosition', [S('getBusbarIndex', 'setBusbarIndex'), S('getSectionIndex', 'setSectionIndex')], **e))
    a(Cls('extensions::sld::ConnectablePosition::Feeder', [S('getName', 'setName'), S('getOrder', 'setOrder'), S('getDirection', 'setDirection')], **e))
    return L
