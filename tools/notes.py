TECHS = {}
NOTES = {}
NA = {}
