"""Reference definitions: configuration."""
import os
import pathlib
import yaml
from pydantic import ValidationError
from tatc.config import ConfigError, RuntimeConfiguration, load_yaml_config


@spec("C30", "tatc.config.load_yaml_config")
def load(path: pathlib.Path):
    if not os.path.exists(path):
        raise ConfigError
    with open(path, "r", encoding="utf-8") as f:
        try:
            settings = yaml.safe_load(f)
        except yaml.YAMLError:
            raise ConfigError
    try:
        return RuntimeConfiguration.model_validate(settings)
    except ValidationError:
        raise ConfigError


def initial():
    """The configuration in force after import."""
    try:
        return load_yaml_config(os.path.join(os.path.dirname(__file__), "resources", "defaults.yml"))
    except ConfigError:
        return RuntimeConfiguration()
