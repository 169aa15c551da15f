"""
Reference functions: physical laws.
"""
from scipy.interpolate import make_interp_spline
from scipy.optimize import curve_fit


@of('phys.laws:LinearLaw.__init__', 'N01')
def lin_init(self: 'LinearLaw', table: '{str:[num]}'):
    self.interpolate = make_interp_spline(table['x'], table['y'], 1)


@of('phys.laws:LinearLaw.__call__', 'N01')
def lin(self: 'LinearLaw', x: 'num'):
    return self.interpolate(x)


@of('phys.laws:_cubic', 'N01')
def cubic(x: 'num', a: 'num', b: 'num', c: 'num', d: 'num'):
    return ((a * x + b) * x + c) * x + d


@of('phys.laws:_quadro', 'N01')
def quadro(x: 'num', a: 'num', b: 'num', c: 'num', d: 'num', e: 'num'):
    return (((a * x + b) * x + c) * x + d) * x + e


@of('phys.laws:FuncLaw.__init__', 'N01')
def func_init(self: 'FuncLaw', table: '{str:[num]}', func: 'fun'):
    self.func = func
    self.popt, self.pcov = curve_fit(func, table['x'], table['y'])


@of('phys.laws:FuncLaw.__call__', 'N01')
def func(self: 'FuncLaw', x: 'num'):
    return self.func(x, *self.popt)


@of('phys.laws:ConstLaw.__init__', 'N01')
def const_init(self: 'ConstLaw', c: 'num'):
    self.y = c


@of('phys.laws:ConstLaw.__call__', 'N01')
def const(self: 'ConstLaw', x: 'num'):
    return self.y


# ---------------------------------------------------------------- published tables

@of('phys.laws:=_water_dynamic_viscosity_data', 'N01')
def water_dynamic_viscosity():
    x = [0, 5, 10, 20, 30, 40, 50, 60, 70, 80, 90, 100]
    y = [0.001787, 0.001519, 0.001307, 0.001002, 0.000798, 0.000653, 0.000547, 0.000467, 0.000404, 0.000355,
         0.000315, 0.000282]
    return {'x': x, 'y': y}


@of('phys.laws:=_water_specific_heat_capacity_data', 'N01')
def water_specific_heat_capacity():
    x = [-9.0, -8.0, -7.0, -6.0, -5.0, -4.0, -3.0, -2.0, -1.0, 0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 9.0, 10.0,
         11.0, 12.0, 14.0, 15.0, 17.0, 18.0, 22.0, 23.0, 29.0]
    y = [1.019, 1.018, 1.017, 1.016, 1.015, 1.014, 1.013, 1.012, 1.011, 1.01, 1.009, 1.008, 1.008, 1.007, 1.006,
         1.005, 1.004, 1.004, 1.003, 1.003, 1.002, 1.002, 1.001, 1.001, 1.0, 1.0, 0.999, 0.999]
    return {'x': x, 'y': [v * 4186.8 for v in y]}


@of('phys.laws:=_ice_specific_heat_capacity_data', 'N01')
def ice_specific_heat_capacity():
    x = [-28.0, -27.0, -26.0, -25.0, -24.0, -23.0, -22.0, -21.0, -20.0, -19.0, -18.0, -17.0, -16.0, -15.0, -14.0,
         -13.0, -12.0, -11.0, -10.0]
    y = [0.452, 0.454, 0.455, 0.457, 0.459, 0.461, 0.463, 0.466, 0.467, 0.468, 0.47, 0.472, 0.474, 0.476, 0.478,
         0.48, 0.481, 0.483, 0.485]
    return {'x': x, 'y': [v * 4186.8 for v in y]}


@of('phys.laws:=_air_specific_heat_capacity_data', 'N01')
def air_specific_heat_capacity():
    x = [-50.0, -45.0, -40.0, -35.0, -30.0, -25.0, -20.0, -15.0, -10.0, -5.0, 0.0, 10.0, 15.0, 20.0, 30.0, 40.0,
         50.0, 60.0, 70.0, 80.0, 90.0, 100.0, 110.0, 120.0, 130.0, 140.0, 150.0, 160.0, 170.0, 180.0, 190.0, 200.0,
         250.0, 300.0, 350.0, 400.0, 450.0, 500.0, 550.0]
    y = [1013.0, 1013.0, 1013.0, 1013.0, 1013.0, 1011.0, 1009.0, 1009.0, 1009.0, 1007.0, 1005.0, 1005.0, 1005.0,
         1005.0, 1005.0, 1005.0, 1005.0, 1005.0, 1009.0, 1009.0, 1009.0, 1009.0, 1009.0, 1009.0, 1011.0, 1013.0,
         1015.0, 1017.0, 1020.0, 1022.0, 1024.0, 1026.0, 1037.0, 1047.0, 1058.0, 1068.0, 1081.0, 1093.0, 1104.0]
    return {'x': x, 'y': y}


@of('phys.laws:=_vaporization_specific_heat_data', 'N01')
def vaporization_specific_heat():
    x = [0.0, 10.0, 20.0, 30.0, 50.0, 70.0, 90.0, 100.0, 120.0, 150.0, 180.0, 200.0, 220.0, 250.0, 300.0, 350.0,
         370.0, 374.0, 374.15]
    y = [2500, 2470, 2450, 2400, 2380, 2320, 2280, 2260, 2200, 2110, 2010, 1940, 1860, 1700, 1400, 890, 440, 110, 0]
    return {'x': x, 'y': y}


@of('phys.laws:=_sublimation_specific_heat_data', 'N01')
def sublimation_specific_heat():
    x = [-39.0, -38.0, -37.0, -36.0, -35.0, -34.0, -33.0, -32.0, -31.0, -30.0, -29.0, -28.0, -27.0, -26.0, -25.0,
         -24.0, -23.0, -22.0, -21.0, -20.0, -19.0, -18.0, -17.0, -16.0, -15.0, -14.0, -13.0, -12.0, -11.0, -10.0,
         -9.0, -8.0, -7.0, -6.0, -5.0, -4.0, -3.0, -2.0, -1.0, 0.0]
    y = [698.4, 697.8, 697.3, 696.8, 696.2, 695.6, 695.1, 694.5, 694.0, 693.4, 692.9, 692.3, 691.8, 691.2, 690.6,
         690.0, 689.5, 688.9, 688.6, 688.1, 687.6, 687.0, 686.5, 685.9, 685.3, 684.7, 684.2, 683.6, 683.1, 682.5,
         681.9, 681.4, 680.8, 680.3, 679.7, 679.1, 678.5, 678.0, 677.6, 676.9]
    return {'x': x, 'y': [v * 4186.8 for v in y]}


@of('phys.laws:=_StefanBoltzmannConstant', 'N01')
def stefan_boltzmann():
    return 5.670374419e-8
